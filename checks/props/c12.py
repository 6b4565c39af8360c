"""C12: size, alignment, spacing, scaling and rotation of texts."""
from hypothesis import strategies as st

from vlib import boxes, geom, sut, texts
from vlib.core import judged, require, require_close

ID = "C12"
RULE = ("1-4 boxes (any size kind and padding, vertical or horizontal row) with 0-2 texts each: plain or with inline styles of other sizes and weights, blank lines, alignment, line spacing, "
        "scale_to_fit, rotation; extents come from the exact metrics of the simulated Inkscape; box areas, the place of the first baseline, alignment, distance of lines, scale and rotation "
        "are compared with the model; the deck is rendered twice; non-trivial: at least two lines or a scaled or rotated text")
ASSUMPTIONS = ["the metrics of the simulated Inkscape stand for those of any font"]
CASES = {"quick": 7500, "thorough": 60000}

STYLES = {"big": dict(size=40), "fat": dict(bold=True), "slim": dict(italic=True, size=9), "plain": dict(bold=False, color="blue")}


@st.composite
def text_spec(draw):
    rich = draw(st.booleans())
    if rich:
        nodes = draw(texts.markup(list(STYLES), "~{}", depth=2, alphabet="ab c"))
        nodes = nodes + ["."]
    else:
        nodes = ["\n".join("abcdefghijklmnopqrst"[: draw(st.integers(0, 14))] for _ in range(draw(st.integers(1, 4))))]
        if draw(st.integers(0, 9)) == 0:
            # many empty lines
            nodes = [nodes[0] + "\n" * draw(st.sampled_from([5, 8, 10, 17, 40])) + "z"]
    return {
        "nodes": nodes,
        "size": draw(st.sampled_from([8, 12.5, 20, 36])),
        "spacing": draw(st.sampled_from([1, 1.2, 1.5, 2])),
        "align": draw(st.sampled_from(["left", "middle", "right"])),
        "bold": draw(st.sampled_from([None, True, False])),
        "italic": draw(st.sampled_from([None, True])),
        "fit": draw(st.sampled_from([False, False, True])),
        "rotation": draw(st.sampled_from([None, None, None, 0, 30, 90, -45.5, 180, 360])),
    }


@st.composite
def strategy_(draw, tier):
    out = []
    for _ in range(draw(st.integers(1, 4))):
        args = {}
        for name in ("width", "height"):
            v = draw(st.one_of(st.none(), st.integers(1, 250), st.integers(1, 60).map(lambda q: "%d%%" % q), st.just("fill")))
            if v is not None:
                args[name] = v
        if draw(st.integers(0, 3)) == 0:
            for k in draw(st.lists(st.sampled_from(boxes.PADS), min_size=1, max_size=3, unique=True)):
                args[k] = draw(st.integers(0, 15))
        for name in ("x", "y"):
            if draw(st.integers(0, 3)) == 0:
                args[name] = draw(st.one_of(st.integers(0, 100), st.integers(0, 100).map(lambda q: "[%d%%]" % q)))
        out.append({"args": args, "texts": draw(st.lists(text_spec(), min_size=0, max_size=2))})
    return {"horizontal": draw(st.booleans()), "boxes": out}


def strategy(tier):
    return strategy_(tier)


def model_of(t):
    base = dict(texts.DEFAULT, size=t["size"], bold=t["bold"], italic=t["italic"])
    lines = texts.expected_lines(t["nodes"], base, STYLES)
    if len(t["nodes"]) == 1:
        lines = texts.drop_trailing(lines)
    width = max(texts.line_width(ln) for ln in lines)
    return lines, width, len(lines) * t["size"] * t["spacing"]


def check(spec, env):
    W, H = 900, 700
    # reference layout
    root = boxes.Node(0, None, "root", {"width": W, "height": H}, False)
    row = boxes.Node(1, root, "box", {"x": 30, "y": 20, "width": 700, "height": 600}, spec["horizontal"])
    root.children.append(row)
    mark = 2
    nodes = []
    for b in spec["boxes"]:
        n = boxes.Node(mark, row, "box", b["args"], False)
        mark += 1
        w = h = 0
        for t in b["texts"]:
            _, tw, th = model_of(t)
            if not t["fit"] or "width" not in b["args"]:
                w = max(w, tw)
            if not t["fit"] or "height" not in b["args"]:
                h = max(h, th)
        n.text_size = (w, h)
        row.children.append(n)
        nodes.append(n)
    where = {}
    boxes.place(root, (0, 0, W, H), where)

    labels = set()
    with judged("slides with texts"):
        import elsie

        deck = sut.make_deck(env, width=W, height=H)
        s = deck.new_slide()
        for k, v in STYLES.items():
            s.set_style(k, elsie.TextStyle(**v))
        r = s.box(x=30, y=20, width=700, height=600, horizontal=spec["horizontal"])
        for n, b in zip(nodes, spec["boxes"]):
            bx = r.box(**b["args"])
            bx.rect(bg_color=sut.colour(n.idx))
            for t in b["texts"]:
                style = elsie.TextStyle(size=t["size"], line_spacing=t["spacing"], align=t["align"], bold=t["bold"], italic=t["italic"])
                bx.text(texts.printed(t["nodes"], "~{}"), style, scale_to_fit=t["fit"], rotation=t["rotation"])
        for turn in (1, 2):
            (svg,) = sut.svgs(deck)
            rects = sut.colour_rects(svg)
            drawn = iter(texts.text_elements(svg))
            for n, b in zip(nodes, spec["boxes"]):
                area = where[n.idx]
                got = rects[sut.colour(n.idx)][0]
                for a, w, what in zip(got, area, ("x", "y", "width", "height")):
                    require_close(a, w, "%s of box %d (%r)" % (what, n.idx, b["args"]))
                for t in b["texts"]:
                    check_text(t, area, drawn, labels, turn)
            require(next(drawn, None) is None, "more texts drawn than there are")
    return sorted(labels)


def check_text(t, area, drawn, labels, turn):
    lines, tw, th = model_of(t)
    x, y, w, h = area
    k = 1.0
    if t["fit"] and tw > 1e-5 and th > 1e-5:
        k = min(w / tw, h / th)
        if k < 1e-3:
            if k > 1.1e-5 or k < 0.9e-5:
                if k > 1e-5:
                    next(drawn)
                return
            from vlib.core import Skip

            raise Skip("text scaled to nothing")
        labels.update(("scaled", "nontrivial"))
    e = next(drawn, None)
    require(e is not None, "a text is not drawn")
    m = geom.parse_transform(e.get("transform"))
    anchor = e.get("text-anchor")
    require(anchor == {"left": "start", "middle": "middle", "right": "end"}[t["align"]], "alignment %r for %r", anchor, t["align"])
    ax = {"left": x, "middle": x + w / 2, "right": x + w}[t["align"]]
    ay = y + (h - th * k) / 2 + t["size"] * k
    rot = geom.rotate(t["rotation"] or 0, x + w / 2, y + h / 2)
    got = geom.apply(m, (sut.fl(e, "x"), sut.fl(e, "y")))
    want = geom.apply(rot, (ax, ay))
    require(geom.near(got, want, 1e-5), "render %d: first baseline of %r starts at %r, expected %r (box %r, scale %r)", turn, t, got, want, area, k)
    lin = geom.mul(rot, geom.scale(k))
    require(geom.same(m[:4], lin[:4], 1e-5), "render %d: text is transformed by %r, expected scale %r and rotation %r", turn, e.get("transform"), k, t["rotation"])
    flat = texts.flatten(e, t["size"] * t["spacing"])
    texts.compare(flat, lines)
    if len(lines) > 1:
        labels.update(("several lines", "nontrivial"))
    if t["rotation"]:
        labels.update(("rotated", "nontrivial"))
    labels.add("align " + t["align"])
