"""C14: line_box and inline_box."""
from hypothesis import strategies as st

from props import c13
from vlib import boxes, sut, texts
from vlib.core import Skip, expect_reject, judged, require, require_close

ID = "C14"
RULE = ("suite text: texts with nested, repeated and multi-line sections, aligned, with any line spacing, scaled to fit or not, in a box of any size, place, padding and orientation with and without "
        "siblings; every line box and inline box is compared with the place computed from exact metrics, overridden arguments and missing sections included; suite code: sections of highlighted code "
        "with line numbers; non-trivial: at least two lines or a nested or repeated section")
ASSUMPTIONS = ["the first line of a section is not empty", "heights may exceed the lines by up to one pixel", "the text is not rotated", "sections of highlighted code do not start within a token that ends before them (see known findings)"]

STYLES = {"big": dict(size=40), "fat": dict(bold=True), "slim": dict(italic=True, size=9)}


@st.composite
def args_strategy(draw):
    args = {}
    for name in ("width", "height"):
        v = draw(st.one_of(st.none(), st.integers(30, 300), st.integers(20, 60).map(lambda q: "%d%%" % q), st.just("fill")))
        if v is not None:
            args[name] = v
    if draw(st.integers(0, 2)) == 0:
        args[draw(st.sampled_from(boxes.PADS))] = draw(st.integers(0, 12))
    if draw(st.booleans()):
        args["horizontal"] = True
    for name in ("x", "y"):
        if draw(st.integers(0, 3)) == 0:
            args[name] = draw(st.integers(0, 100))
    return args


OVERRIDE = st.one_of(st.none(), st.none(), st.sampled_from([{"x": 7}, {"y": 9}, {"width": 33}, {"height": 21}, {"x": 5, "height": 17}, {"y": "50%", "width": "20%"},
                                                           {"p_left": 3, "p_top": 2}, {"x": "[100%]", "width": 44}]))


@st.composite
def case(draw, tier):
    nodes = draw(texts.markup(list(STYLES), "~{}", depth=3 if tier == "quick" else 5, alphabet="abc "))
    probes = draw(st.lists(st.tuples(st.sampled_from(["line", "inline", "inline", "inline", "missing"]), st.integers(0, 30), st.integers(1, 3), OVERRIDE).map(list), min_size=1, max_size=5))
    return {
        "nodes": nodes + ["."], "args": draw(args_strategy()), "size": draw(st.sampled_from([10, 20, 31])), "spacing": draw(st.sampled_from([1, 1.2, 2])),
        "align": draw(st.sampled_from(["left", "middle", "right"])), "fit": draw(st.sampled_from([False, False, True])), "probes": probes,
        "sibling": draw(st.booleans()), "code": draw(st.sampled_from([False, False, True])),
        "bold": draw(st.booleans()),
    }


def sections(nodes):
    """[(name, first line, first column, last column on that line)] in the order of opening."""
    out = []
    pos = [0, 0]

    def walk(ns):
        for n in ns:
            if isinstance(n, str):
                for c in n:
                    if c == "\n":
                        for s in open_:
                            if s[3] is None:
                                s[3] = pos[1]
                        pos[0] += 1
                        pos[1] = 0
                    else:
                        pos[1] += 1
                continue
            s = [n[0], pos[0], pos[1], None]
            out.append(s)
            open_.append(s)
            walk(n[1])
            open_.pop()
            if s[3] is None:
                s[3] = pos[1]

    open_ = []
    walk(nodes)
    return out


def box_place(name, area, want, override, got):
    """Compare a line or inline box; the height may be up to a pixel more than the text's."""
    x, y, w, h = want
    slack = 1.0
    ax, ay, aw, ah = area
    o = dict(override or {})
    if "width" in o:
        w = aw * 0.2 if o["width"] == "20%" else o["width"]
    if "height" in o:
        h, slack = o["height"], 0.0
    if "x" in o:
        x = ax + (aw - w) if o["x"] == "[100%]" else ax + o["x"]
    if "y" in o:
        y = ay + ah / 2 if o["y"] == "50%" else ay + o["y"]
    l, t = o.get("p_left", 0), o.get("p_top", 0)
    require_close(got[0], x + l, "x of %s" % name, 1e-5)
    require_close(got[1], y + t, "y of %s" % name, 1e-5)
    require_close(got[2], w - l, "width of %s" % name, 1e-5)
    require(h - 1e-4 <= got[3] + t <= h + slack + 1e-4, "height of %s is %r, its lines are %r high", name, got[3] + t, h)


def check(spec, env):
    base = dict(texts.DEFAULT, size=spec["size"], bold=spec["bold"])
    lines = texts.expected_lines(spec["nodes"], base, STYLES)
    tw = max(texts.line_width(ln) for ln in lines)
    line_h = spec["size"] * spec["spacing"]
    th = len(lines) * line_h
    W, H = 900, 700
    root = boxes.Node(0, None, "root", {"width": W, "height": H}, False)
    n = boxes.Node(1, root, "box", spec["args"], bool(spec["args"].get("horizontal")))
    n.text_size = (0 if spec["fit"] and "width" in spec["args"] else tw, 0 if spec["fit"] and "height" in spec["args"] else th)
    root.children.append(n)
    if spec["sibling"]:
        c = boxes.Node(2, n, "box", {"width": 25, "height": 15}, False)
        n.children.append(c)
    where = {}
    boxes.place(root, (0, 0, W, H), where)
    area = where[1]
    x, y, w, h = area
    k = min(w / tw, h / th) if spec["fit"] else 1.0
    if k < 0.01:
        raise Skip("text scaled to nothing")
    secs = sections(spec["nodes"])
    labels = set()
    expected = []
    with judged("line and inline boxes"):
        import elsie

        deck = sut.make_deck(env, width=W, height=H)
        s = deck.new_slide()
        for name, v in STYLES.items():
            s.set_style(name, elsie.TextStyle(**v))
        style = elsie.TextStyle(size=spec["size"], line_spacing=spec["spacing"], align=spec["align"], bold=spec["bold"])
        mine = elsie.TextStyle(font="sans-serif", color="black", size=spec["size"], line_spacing=spec["spacing"], align=spec["align"], bold=spec["bold"])
        s.set_style("mine", mine)
        b = s.box(**spec["args"])
        text = texts.printed(spec["nodes"], "~{}")
        if spec["code"]:
            item = b.code("", text, style="mine", use_styles=True, scale_to_fit=spec["fit"])
        else:
            item = b.text(text, style, scale_to_fit=spec["fit"])
        if spec["sibling"]:
            b.box(width=25, height=15)
        top = y + (h - th * k) / 2
        for i, (what, pick, count, override) in enumerate(spec["probes"]):
            colour = sut.colour(i + 1)
            ov = dict(override or {})
            if what == "line":
                at = pick % len(lines)
                if count == 1 and i % 2:
                    bx = item.line_box(at, **ov)
                else:
                    bx = item.line_box(at, n_lines=count, **ov)
                bx.rect(bg_color=colour)
                expected.append((colour, "line_box(%d, %d)" % (at, count), (x, top + at * line_h * k, w, count * line_h * k), override))
                labels.add("line box")
            elif what == "inline" and secs:
                name, ln, c0, c1 = secs[pick % len(secs)]
                if c0 == c1:
                    labels.add("empty section")
                    continue
                nth = [q for q in secs if q[0] == name].index(secs[pick % len(secs)]) + 1
                if nth == 1 and i % 2:
                    bx = item.inline_box(name, **ov)
                else:
                    bx = item.inline_box(name, nth, **ov)
                bx.rect(bg_color=colour)
                lw = texts.line_width(lines[ln])
                x0 = {"left": x, "middle": x + w / 2 - lw * k / 2, "right": x + w - lw * k}[spec["align"]]
                before = texts.line_width(lines[ln][:c0])
                own = texts.line_width(lines[ln][c0:c1])
                expected.append((colour, "inline_box(%r, %d)" % (name, nth), (x0 + before * k, top + ln * line_h * k, own * k, line_h * k), override))
                labels.add("inline box")
                if nth > 1:
                    labels.update(("repeated section", "nontrivial"))
            elif what == "missing":
                name = pick % 2 and secs and secs[pick % len(secs)][0] or "#nope"
                total = len([q for q in secs if q[0] == name])
                expect_reject("inline_box(%r, %d)" % (name, total + count), lambda: item.inline_box(name, total + count, **ov))
                expect_reject("inline_box(%r, 0)" % name, lambda: item.inline_box(name, 0, **ov))
                labels.add("missing section")
        for turn in (1, 2):
            (svg,) = sut.svgs(deck)
            rects = sut.colour_rects(svg)
            for colour, name, want, override in expected:
                got = rects.get(colour)
                require(got is not None, "%s is not drawn", name)
                box_place("%s with %r" % (name, override), area, want, override, got[0])
    if len(lines) > 1:
        labels.update(("several lines", "nontrivial"))
    labels.add("align " + spec["align"])
    if spec["fit"]:
        labels.add("scaled")
    return sorted(labels)


# ---------------------------------------------------------------- highlighted code

@st.composite
def code_case(draw, tier):
    spec = draw(c13.case(tier, True))
    spec["language"] = spec["language"] or "python"
    spec["names"] = [draw(st.sampled_from(["#a", "#b", "big", "serif"])) for _ in spec["cuts"]]
    spec["fit"] = draw(st.booleans())
    spec["pick"] = draw(st.lists(st.integers(0, 10), min_size=1, max_size=4))
    return spec


def check_code(spec, env):
    delims = spec["delims"]
    text = "".join(c for c in spec["text"] if c not in delims and c != "\t").strip("\n")
    if not text:
        raise Skip("no text")
    # token boundaries of the code
    bounds = []
    pos = 0
    for _, value in c13.tokens_of(text, spec["language"]):
        bounds.append((pos, pos + len(value)))
        pos += len(value)
    cuts = []
    for (a, b, _), name in zip(spec["cuts"], spec["names"]):
        a, b = min(a, len(text)), min(b, len(text))
        if a < b and text[a] != "\n" and (spec.get("all") or not any(t0 < a < t1 < b for t0, t1 in bounds)):
            cuts.append([a, b, name])
    if not cuts:
        raise Skip("no section that keeps in one piece")
    source_text, of = c13.marked(dict(spec, cuts=cuts), text)
    good = []
    for a, b, name in cuts:
        if not any(a < c < b < d or c < a < d < b for c, d, _ in good):
            good.append((a, b, name))
    good.sort(key=lambda t: (t[0], -t[1]))
    with judged("inline boxes of code %r" % source_text):
        import elsie

        deck = sut.make_deck(env, pygments_theme=spec["theme"])
        for name, a in c13.SECTIONS.items():
            deck.set_style(name, elsie.TextStyle(**a))
        kw = {} if delims == "~{}" else {"escape_char": delims}
        s = deck.new_slide()
        b = s.box(x=40, y=30, width=500, height=400)
        b.rect(bg_color=sut.colour(0))
        item = b.code(spec["language"], source_text, use_styles=True, line_numbers=spec["numbers"], scale_to_fit=spec["fit"], **kw)
        marks = []
        for i, p in enumerate(spec["pick"]):
            a, e, name = good[p % len(good)]
            nth = [g for g in good if g[2] == name].index(good[p % len(good)]) + 1
            item.inline_box(name, nth).rect(bg_color=sut.colour(i + 1))
            marks.append((a, e, name, nth))
        (svg,) = sut.svgs(deck)
        rects = sut.colour_rects(svg)
        x, y, w, h = rects[sut.colour(0)][0]
        (el,) = texts.text_elements(svg)
        lines = texts.flatten(el, 20 * 1.2)
        for ln in lines:
            for _, stl in ln:
                stl.setdefault("bold", False)
        prefix = len(str(len(lines))) + 1 if spec["numbers"] else 0
        tw = max(texts.line_width(ln) for ln in lines)
        th = len(lines) * 24
        k = min(w / tw, h / th) if spec["fit"] else 1.0
        for i, (a, e, name, nth) in enumerate(marks):
            row = text[:a].count("\n")
            col = a - (text[:a].rfind("\n") + 1)
            end = min(e, text.find("\n", a) if "\n" in text[a:] else len(text))
            line = lines[row]
            want = (x + texts.line_width(line[: prefix + col]) * k, y + (h - th * k) / 2 + row * 24 * k, texts.line_width(line[prefix + col: prefix + col + end - a]) * k, 24 * k)
            box_place("inline_box(%r, %d)" % (name, nth), (x, y, w, h), want, None, rects[sut.colour(i + 1)][0])
    return ["nontrivial", "numbers" if spec["numbers"] else "no numbers", "scaled" if spec["fit"] else "not scaled"]


SUITES = {"text": {"strategy": case, "check": check, "share": 0.75}, "code": {"strategy": code_case, "check": check_code, "share": 0.25}}
CASES = {"quick": 8000, "thorough": 60000}
