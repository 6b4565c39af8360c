"""C03: padding."""
from hypothesis import strategies as st

from vlib import boxes, sut
from vlib.core import judged, require, require_close

ID = "C03"
RULE = ("suite tree: trees of 1-10 padded boxes of any size and position kind (also with texts) against the reference layout; "
        "suite same: the same box built with its paddings spelled in another way, and as an unpadded box with a child of the reduced area, have the same contents at the same place; "
        "non-trivial: at least two of the seven padding arguments on one box")
ASSUMPTIONS = ["paddings are non-negative and leave a non-negative inner area"]


def tree_strategy(tier):
    return boxes.trees(max_boxes=10 if tier == "quick" else 18, positions=0.15, pads=0.75, prepend=0.05, texts=0.3)


def overlapping(n):
    names = [k for k in boxes.PADS if k in n.args]
    return len(names) >= 2


def check_tree(spec, env):
    nodes, where = boxes.check_layout(spec, env)
    labels = []
    if any(overlapping(n) for n in nodes):
        labels.append("nontrivial")
    for n in nodes[1:]:
        for k in boxes.PADS:
            if k in n.args:
                labels.append(k + ("=0" if n.args[k] == 0 else ""))
    return sorted(set(labels))


VALUE = st.one_of(st.none(), st.just(0), st.integers(1, 40), st.floats(0, 40).map(lambda v: round(v, 2)))


@st.composite
def same_strategy(draw, tier):
    pads = {k: draw(VALUE) for k in boxes.PADS}
    kind = draw(st.sampled_from(["explicit", "free", "share", "fill"]))
    return {"pads": pads, "kind": kind, "horizontal": draw(st.booleans()),
            "size": [draw(st.integers(90, 300)), draw(st.integers(90, 300))],
            "content": [draw(st.integers(0, 120)), draw(st.integers(0, 120))]}


def check_same(spec, env):
    n = boxes.Node(1, None, "box", {k: v for k, v in spec["pads"].items()}, False)
    l, r, t, b = n.pads()
    cw, ch = spec["content"]
    w, h = spec["size"]
    size = {"explicit": {"x": 11, "y": 7, "width": w, "height": h}, "free": {}, "share": {"width": "40%", "height": "50%"},
            "fill": {"width": "fill", "height": "fill"}}[spec["kind"]]
    variants = [
        dict(spec["pads"]),
        dict(p_left=l, p_right=r, p_top=t, p_bottom=b),
        dict(p_left=l, p_right=r, p_top=t, p_bottom=b, padding=33, p_x=17, p_y=19),
    ]
    if l == r and t == b:
        variants.append(dict(p_x=l, p_y=t, padding=50))
    areas = []
    with judged("padded boxes"):
        deck = sut.make_deck(env, width=600, height=700)
        for pads in variants:
            s = deck.new_slide()
            box = s.box(horizontal=spec["horizontal"], **size, **pads)
            box.rect(bg_color=sut.colour(1))
            box.box(width=cw, height=ch).rect(bg_color=sut.colour(2))
            box.box(x=0, y=0, width="100%", height="100%").rect(bg_color=sut.colour(3))
            box.line([(0, 0), ("100%", "100%")], color=sut.colour(4))
        for root in sut.svgs(deck):
            got = sut.colour_rects(root)
            inner = got[sut.colour(1)][0]
            line = [e for e in root if sut.local(e) == "polyline"][0].get("points").replace(",", " ").split()
            x1, y1, x2, y2 = (float(v) for v in line)
            areas.append((inner, got[sut.colour(2)][0], got[sut.colour(3)][0], (x1, y1, x2 - x1, y2 - y1)))
    for other in areas[1:]:
        for a, o in zip(areas[0], other):
            for i in range(4):
                require_close(a[i], o[i], "the same paddings spelled differently")
    inner, child, over, line = areas[0]
    for name, area in (("a child of 100%", over), ("a line across the box", line)):
        for i in range(4):
            require_close(area[i], inner[i], "%s does not cover the inner area" % name)
    # Outer area computed independently
    if spec["kind"] == "explicit":
        ow, oh = max(w, cw + l + r), max(h, ch + t + b)
        ox, oy = 11, 7
    elif spec["kind"] == "free":
        ow, oh = cw + l + r, ch + t + b
        ox, oy = (600 - ow) / 2, (700 - oh) / 2
    elif spec["kind"] == "share":
        ow, oh = max(240, cw + l + r), max(350, ch + t + b)
        ox, oy = (600 - ow) / 2, (700 - oh) / 2
    else:
        ow, oh, ox, oy = 600, 700, 0, 0
    for g, e, what in zip(inner, (ox + l, oy + t, ow - l - r, oh - t - b), ("x", "y", "width", "height")):
        require_close(g, e, "%s of the inner area" % what)
    require_close(child[0] + child[2] / 2, inner[0] + inner[2] / 2, "child is not centred in the inner area")
    require_close(child[1] + child[3] / 2, inner[1] + inner[3] / 2, "child is not centred in the inner area")
    labels = ["size " + spec["kind"]]
    if sum(v is not None for v in spec["pads"].values()) >= 2:
        labels.append("nontrivial")
    return labels


SUITES = {
    "tree": {"strategy": tree_strategy, "check": check_tree, "share": 0.6},
    "same": {"strategy": same_strategy, "check": check_same, "share": 0.4},
}
CASES = {"quick": 10000, "thorough": 80000}
