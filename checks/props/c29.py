"""C29: Markdown."""
from hypothesis import strategies as st

from vlib import sut, texts
from vlib.core import close, judged, require

ID = "C29"
RULE = ("Markdown documents generated as trees: headings of all levels and both forms, paragraphs with line breaks, nested quotes, fenced code, nested ordered and unordered lists with any start and bullet, inline bold, italic, links, "
        "escapes and inline style commands with two escape characters, drawn with user styles set on the slide or the box; texts, their effective styles, order, labels and places are compared with the tree; "
        "non-trivial: 3 blocks and either nesting or nested inline markup")
ASSUMPTIONS = ["the supported subset: no HTML, entities, inline code, images, tables, rules or indented code", "braces occur only outside of inline markup", "a nested list is the last block of its item",
               "text extents come from a simulated Inkscape with exact metrics"]

WORD = st.sampled_from(["alpha", "b", "x1", "\u010dau", "Q", "don't", "a&b", "<3", "word", "i.e.", "a_b", "1.5", "z"])
USER = {"u1": {"color": "#00ff00", "size": 17}, "u2": {"bold": True, "font": "serif"}}
NAMES = ["md-paragraph", "md-bold", "md-italic", "md-link", "md-blockquote", "md-h1", "md-h2", "md-h3", "md-h6", "u1"]


@st.composite
def inline(draw, level, breaks):
    out = [["w", draw(WORD)]]
    for _ in range(draw(st.integers(0, 4 if level == 0 else 2))):
        k = draw(st.integers(0, 11))
        if k < 5 or level >= 3:
            out.append(["w", draw(WORD)])
        elif k == 5:
            out.append(["esc", draw(st.sampled_from(["*", "_", "#", "[", "\\", "ESC"]))])
        elif k == 6 and breaks:
            out += [["br", draw(st.integers(0, 2))], ["w", draw(WORD)]]
        elif k == 7:
            out.append(["style", draw(st.sampled_from(["u1", "u2", "tt"])), draw(inline(level + 1, False))])
        elif k == 8:
            out.append(["lit"])
        else:
            out.append([draw(st.sampled_from(["b", "i", "_", "a"])), draw(inline(level + 1, breaks and level < 1))])
    out.append(["w", draw(WORD)])
    return out


@st.composite
def blocks(draw, level, budget, in_item=False):
    out = []
    for n in range(draw(st.integers(1, 4 if level == 0 else 3))):
        if budget[0] <= 0 and n:
            break
        budget[0] -= 1
        k = draw(st.integers(0, 9))
        if k < 4 or (n == 0 and in_item and k >= 8) or (k >= 6 and level >= 3):
            out.append(["p", draw(inline(0, True))])
        elif k == 4:
            out.append(["h", draw(st.integers(1, 6)), draw(inline(0, False)), draw(st.integers(0, 2))])
        elif k == 5:
            out.append(["code", draw(st.sampled_from(["", "python", "c"])), draw(st.lists(st.sampled_from(["x = 1", "    y(*a)", "# not a heading", "~u1{q}", "", "- no item", "a < b > c"]), min_size=1, max_size=3))])
        elif k == 6 or k == 7:
            out.append(["q", draw(blocks(level + 1, budget))])
        else:
            items = [draw(blocks(level + 1, budget, True)) for _ in range(draw(st.integers(1, 3)))]
            ordered = draw(st.booleans())
            out.append(["l", ordered, draw(st.sampled_from([1, 1, 0, 3, 12])) if ordered else draw(st.sampled_from(["-", "*", "+"])), items, draw(st.booleans())])
            if in_item:
                break
    return out


@st.composite
def strategy_(draw, tier):
    styles = {}
    for name in draw(st.lists(st.sampled_from(NAMES + ["default"]), max_size=3, unique=True)):
        attrs = {}
        if draw(st.booleans()):
            attrs["color"] = draw(st.sampled_from(["red", "#123456"]))
        if draw(st.booleans()):
            attrs["size"] = draw(st.sampled_from([11, 33]))
        if draw(st.booleans()):
            attrs["bold"] = draw(st.booleans())
        styles[name] = attrs
    return {"doc": draw(blocks(0, [7 if tier == "quick" else 14])), "esc": draw(st.sampled_from(["~", "~", "~", "@"])), "styles": styles, "where": draw(st.sampled_from(["slide", "box"])),
            "indent": draw(st.sampled_from([0, 0, 4])), "twice": draw(st.integers(0, 3)) == 0}


# ---------------------------------------------------------------- printing

def print_inline(nodes, esc):
    out = []
    for n in nodes:
        if n[0] == "br":
            out[-1] += ["\n", "  \n", "\\\n"][n[1]]
            out.append("")
            continue
        if n[0] == "w":
            s = n[1]
        elif n[0] == "esc":
            s = "\\" + (esc if n[1] == "ESC" else n[1])
        elif n[0] == "lit":
            s = esc + esc
        elif n[0] == "style":
            s = esc + n[1] + "{" + print_inline(n[2], esc) + "}"
        elif n[0] == "a":
            s = "[" + print_inline(n[1], esc) + "](u)"
        else:
            d = {"b": "**", "i": "*", "_": "_"}[n[0]]
            s = d + print_inline(n[1], esc) + d
        if out and out[-1]:
            s = " " + s
        out.append(s)
    return "".join(out)


def print_blocks(bs, esc, tight=False):
    lines = []
    for i, b in enumerate(bs):
        if i and not tight:
            lines.append("")
        if b[0] == "p":
            lines += print_inline(b[1], esc).split("\n")
        elif b[0] == "h":
            text = print_inline(b[2], esc)
            if b[3] and b[1] <= 2:
                lines += [text, "==="[:1 + b[3]] if b[1] == 1 else "---"[:1 + b[3]]]
            else:
                lines.append("#" * b[1] + " " + text + (" ##" if b[3] == 2 else ""))
        elif b[0] == "code":
            lines += ["```" + b[1]] + b[2] + ["```"]
        elif b[0] == "q":
            lines += [(">" + (" " + x if x else "")) for x in print_blocks(b[1], esc)]
        else:
            dense = tightable(b)
            for k, item in enumerate(b[3]):
                mark = "%d." % (b[2] + k) if b[1] else b[2]
                body = print_blocks(item, esc, dense)
                if k and not dense:
                    lines.append("")
                lines += [(" " * (len(mark) + 1) if j else mark + " ") + x if x else "" for j, x in enumerate(body)]
    return lines


def tightable(b):
    """The items can be printed without blank lines: a paragraph, possibly a list that can interrupt it."""
    return b[4] and all(len(i) == 1 and i[0][0] in "ph" or len(i) == 2 and i[0][0] == "p" and i[1][0] == "l" and tightable(i[1]) and (not i[1][1] or i[1][2] == 1) for i in b[3])


def no_links(nodes, inside=False):
    """Links do not contain links."""
    return [["b" if n[0] == "a" and inside else n[0]] + n[1:-1] + [no_links(n[-1], inside or n[0] == "a")] if n[0] in ("a", "b", "i", "_", "style") else n for n in nodes]


def normalised(bs):
    """Two neighbouring lists of the same kind would be one; code needs a line."""
    out = []
    for b in bs:
        if b[0] == "p":
            b = ["p", no_links(b[1])]
        elif b[0] == "h":
            b = ["h", b[1], no_links(b[2]), b[3]]
        elif b[0] == "code" and not any(b[2]):
            b = ["code", b[1], ["z"] + b[2]]
        if out and b[0] == "l" and out[-1][0] == "l" and b[1] == out[-1][1] and (b[1] or b[2] == out[-1][2]):
            out.append(["p", [["w", "between"]]])
        if b[0] == "q":
            b = ["q", normalised(b[1])]
        elif b[0] == "l":
            b = b[:3] + [[normalised(i) for i in b[3]]] + b[4:]
        out.append(b)
    return out


# ---------------------------------------------------------------- model

ITALIC, BOLD = {"italic": True}, {"bold": True}
MD = {"md-paragraph": {}, "md-bold": BOLD, "md-italic": ITALIC, "md-link": {"color": "#0EBFE9"}, "md-blockquote": {"color": "#A9A9A9"}}
for _i in range(6):
    MD["md-h%d" % (_i + 1)] = {"size": 40 - 2 * _i}


class Model:
    def __init__(self, spec):
        self.esc = spec["esc"]
        self.styles = dict(MD, tt={"font": "monospace"}, **USER)
        user = dict(spec["styles"])
        self.default = dict({"font": "sans-serif", "size": 28, "color": "black", "bold": False, "italic": False}, **user.pop("default", {}))
        self.styles.update(dict(user, u1=dict(USER["u1"], **user.get("u1", {}))))
        self.lists = 0
        self.out = []  # ("text", [[(char, style)]], size) | ("code", [str], None) | ("label", str, its list, the list around)

    def chars(self, nodes, style):
        out = []
        first = True
        for n in nodes:
            if n[0] == "br":
                out.append(("\n", None))
                first = True
                continue
            if not first:
                out.append((" ", style))
            first = False
            if n[0] == "w":
                out += [(c, style) for c in n[1]]
            elif n[0] == "esc":
                out += [(c, style) for c in (self.esc if n[1] == "ESC" else n[1])]
            elif n[0] == "lit":
                out.append((self.esc, style))
            else:
                name = n[1] if n[0] == "style" else {"b": "md-bold", "i": "md-italic", "_": "md-italic", "a": "md-link"}[n[0]]
                out += self.chars(n[-1], dict(style, **self.styles[name]))
        return out

    def blocks(self, bs, default, outer=None):
        for b in bs:
            if b[0] in "ph":
                name = "md-paragraph" if b[0] == "p" else "md-h%d" % b[1]
                cs = self.chars(b[-1] if b[0] == "p" else b[2], dict(default, **self.styles[name]))
                lines = [[]]
                for c in cs:
                    if c[0] == "\n":
                        lines.append([])
                    else:
                        lines[-1].append(c)
                self.out.append(("text", lines, dict(default, **self.styles[name])["size"]))
            elif b[0] == "code":
                lines = list(b[2])
                self.out.append(("code", lines, None))
            elif b[0] == "q":
                self.blocks(b[1], dict(default, **self.styles["md-blockquote"]))
            else:
                self.lists += 1
                me = self.lists
                for k, item in enumerate(b[3]):
                    self.out.append(("label", "%d." % (b[2] + k) if b[1] else b[2], me, outer))
                    self.blocks(item, default, me)


def ends(e):
    """Base lines of the first and the last line."""
    y = sut.fl(e, "y")
    return y, y + sum(float(d.get("dy")) for d in e.iter() if d is not e and d.get("dy") is not None)


def check(spec, env):
    doc = normalised(spec["doc"])
    lines = print_blocks(doc, spec["esc"])
    source = "\n" + "\n".join(" " * spec["indent"] + x if x else "" for x in lines) + "\n"
    labels = set()
    with judged("Markdown %r" % source):
        import elsie
        from elsie.ext import markdown

        deck = sut.make_deck(env, width=3000, height=3000)
        slide = deck.new_slide()
        slide.set_style("u1", elsie.TextStyle(**USER["u1"]))
        slide.set_style("u2", elsie.TextStyle(**USER["u2"]))
        box = slide.box(p_left=50)
        target = slide if spec["where"] == "slide" else box
        if spec["where"] == "slide":
            for name, attrs in spec["styles"].items():
                user_style(elsie, slide, name, attrs)
            box = slide.box(p_left=50)
        else:
            for name, attrs in spec["styles"].items():
                user_style(elsie, target, name, attrs)
        had = [box.has_style(n) for n in NAMES]
        kw = {} if spec["esc"] == "~" else {"escape_char": spec["esc"]}
        for _ in range(2 if spec["twice"] else 1):
            markdown(box, source, **kw)
        require(had == [box.has_style(n) for n in NAMES], "the styles of the given box were changed")
        box.box().text("after", elsie.TextStyle(size=19))
        model = Model(spec)
        for _ in range(2 if spec["twice"] else 1):
            model.blocks(doc, model.default)
        want = model.out + [("text", [[(c, dict(model.default, size=19)) for c in "after"]], 19)]
        units = sut.render_units(deck)
        require(len(units) == 1, "%d fragments", len(units))
        got = [e for e in sut.parse_svg(units[0].get_svg()) if "".join(e.itertext())]
        want = [w for w in want if w[0] != "code" or any(x for x in w[1])]
        shown = [texts.shown(e) for e in got]
        require(len(got) == len(want), "%d texts are drawn %r, expected %d", len(got), shown, len(want))
        bottom = None
        lefts = {}
        for at, (e, w) in enumerate(zip(got, want)):
            require(sut.local(e) == "text", "<%s> drawn", sut.local(e))
            first, last = ends(e)
            if w[0] == "label":
                require(texts.shown(e) == w[1], "label %r, expected %r", shown[at], w[1])
                require(bottom is None or first > bottom, "label %r is not below what precedes it", w[1])
                x = sut.fl(e, "x")
                lefts[w[2]] = x
                if w[3] is not None:
                    require(x > lefts[w[3]], "a nested list starts at %r, its parent at %r", x, lefts[w[3]])
                label = x
                continue
            require(bottom is None or first > bottom, "%r at %r is not below what precedes it, which ends at %r", shown[at], first, bottom)
            bottom = last
            if at and want[at - 1][0] == "label":
                require(sut.fl(e, "x") > label, "an item starts at %r, its label at %r", sut.fl(e, "x"), label)
            if w[0] == "code":
                size = 20
                flat = texts.drop_trailing(texts.flatten(e, size * 1.2))
                text = ["".join(c for c, _ in ln) for ln in flat]
                wt = list(w[1])
                while wt and not wt[-1]:
                    wt.pop()
                # pygments strips newlines around
                while wt and not wt[0]:
                    wt.pop(0)
                while text and not text[0]:
                    text.pop(0)
                require(text == wt, "code %r, expected %r", text, wt)
                continue
            flat = texts.flatten(e, w[2] * 1.2)
            require(["".join(c for c, _ in ln) for ln in flat] == ["".join(c for c, _ in ln) for ln in w[1]], "text %r, expected %r", [[c for c, _ in ln] for ln in flat], [[c for c, _ in ln] for ln in w[1]])
            for gl, wl in zip(flat, w[1]):
                for (c, g), (_, m) in zip(gl, wl):
                    for k in ("font", "size", "color", "bold", "italic"):
                        gv = g.get(k, False if k in ("bold", "italic") else None)
                        require(gv == m[k] or (k == "size" and gv is not None and close(gv, m[k])), "%r of %r has %s %r, expected %r", c, "".join(x for x, _ in gl), k, gv, m[k])
    kinds = {b[0] for b in doc}
    labels |= kinds

    def deep(bs, level=0):
        for b in bs:
            if b[0] in "ph":
                if any(n[0] in ("b", "i", "_", "a", "style") and any(m[0] not in ("w", "br") for m in n[-1]) for n in b[-1 if b[0] == "p" else 2]):
                    labels.add("nested inline")
            elif b[0] in "ql":
                if level:
                    labels.add("nested blocks")
                for i in ([b[1]] if b[0] == "q" else b[3]):
                    deep(i, level + 1)

    deep(doc)
    if len(want) >= 4 and labels & {"nested inline", "nested blocks", "q", "l"}:
        labels.add("nontrivial")
    return sorted(labels)


def user_style(elsie, target, name, attrs):
    style = elsie.TextStyle(**attrs)
    if name == "default" or name == "u1":
        target.update_style(name, style)
    else:
        target.set_style(name, style)


SUITES = {"main": {"strategy": lambda tier: strategy_(tier), "check": check, "share": 1.0}}
CASES = {"quick": 5500, "thorough": 40000}
