"""C02: explicit, relative, aligned and dynamic positions."""
from hypothesis import strategies as st

from vlib import boxes, sut
from vlib.core import judged, require, require_close

ID = "C02"
RULE = ("trees of 1-10 boxes with positions of every kind (number, 'NN', 'NN%', '[NN%]', dynamic coordinates of earlier boxes with add/map, taken by x, y, p, mid_point) "
        "on both axes of vertical and horizontal parents, plus lines and polygons through dynamic points; all areas and points are compared with a reference "
        "layout; non-trivial: at least two explicit positions of different kinds, or a dynamic one")
ASSUMPTIONS = ["dynamic coordinates refer to boxes that are laid out before the box that uses them (see known findings)"]
CASES = {"quick": 7500, "thorough": 60000}


@st.composite
def strategy_(draw, tier):
    tree = draw(boxes.trees(max_boxes=10 if tier == "quick" else 18, positions=0.5, dynamic=0.35, pads=0.2, prepend=0.1, texts=0.1))
    n = len(tree["ops"])
    pts = st.lists(st.tuples(st.integers(0, n), point(n)).map(list), min_size=2, max_size=4)
    tree["lines"] = draw(st.lists(st.tuples(st.integers(0, n), st.sampled_from(["line", "polygon"]), pts).map(list), max_size=2))
    # A box that is added when the slide has already been rendered
    tree["late"] = draw(st.one_of(st.none(), st.fixed_dictionaries({"width": st.integers(0, 90), "height": st.integers(0, 90)}, optional={"prepend": st.just(True)})))
    return tree


def point(n):
    """[box of the point or None for own coordinates, x, y, dx, dy]"""
    c = st.one_of(st.integers(-30, 200), st.integers(0, 120).map(lambda v: "%d%%" % v))
    return st.tuples(c, c, st.integers(-20, 20), st.integers(-20, 20), st.sampled_from(["own", "p", "mid"])).map(list)


def strategy(tier):
    return strategy_(tier)


def kind_of(v):
    if isinstance(v, dict):
        return "dynamic"
    if isinstance(v, (int, float)):
        return "number"
    return "align" if v.startswith("[") else "percent" if v.endswith("%") else "number string"


def check_lines(spec, deck, where, when):
    (root,) = sut.svgs(deck)
    got = {sut.style_of(e).get("stroke"): e for e in root if sut.local(e) in ("polyline", "polygon")}
    require(len(got) == len(spec["lines"]), "%d of %d lines drawn", len(got), len(spec["lines"]))
    got = [got[sut.colour(li)] for li in range(len(got))]
    for e, (own, what, pts) in zip(got, spec["lines"]):
        coords = [tuple(float(v) for v in p.split(",")) for p in e.get("points").split()]
        require(len(coords) == len(pts), "points %r for %r", coords, pts)
        for c, (target, (x, y, dx, dy, how)) in zip(coords, pts):
            tx, ty, tw, th = where[own if how == "own" else target]
            if how == "mid":
                want = (tx + tw / 2 + dx, ty + th / 2 + dy)
            else:
                want = (boxes.position(x, tx, tw, 0, where), boxes.position(y, ty, th, 0, where))
                if how == "p":
                    want = (want[0] + dx, want[1] + dy)
            require_close(c[0], want[0], "x of a point %s of box %d%s" % (how, target, when))
            require_close(c[1], want[1], "y of a point %s of box %d%s" % (how, target, when))


def check(spec, env):
    nodes, where = boxes.check_layout(spec, env)
    spec2 = boxes.normalise(spec)
    if spec.get("lines"):
        with judged("lines through dynamic points"):
            deck = sut.make_deck(env, width=spec["wh"][0], height=spec["wh"][1])
            bx = boxes.build(spec2, deck.new_slide(), mark=False)
            for li, (own, what, pts) in enumerate(spec["lines"]):
                real = []
                for target, (x, y, dx, dy, how) in pts:
                    if how == "own":
                        real.append((x, y))
                    elif how == "mid":
                        real.append(bx[target].mid_point().add(dx, dy))
                    else:
                        real.append(bx[target].p(x, y).add(dx, dy))
                getattr(bx[own], what)(real, color=sut.colour(li))
            check_lines(spec, deck, where, "")
            if spec.get("late"):
                spec3 = dict(spec2, ops=spec2["ops"] + [{"p": 0, "kind": "box", "args": spec["late"]}])
                bx[0].box(**spec["late"])
                check_lines(spec, deck, boxes.layout(spec3)[1], " after a box was added")
    kinds = set()
    labels = set()
    for n in nodes[1:]:
        for k in ("x", "y"):
            v = n.args.get(k)
            if v is not None and n.kind != "overlay":
                kinds.add(kind_of(v))
                labels.add("%s %s in %s parent" % (kind_of(v), k, "horizontal" if n.parent.horizontal else "vertical"))
    labels |= {"pos:" + k for k in kinds}
    if len(kinds) >= 2 or "dynamic" in kinds:
        labels.add("nontrivial")
    return sorted(labels)


def check_forward(spec, env):
    """A box at a coordinate of a box of a later branch (known finding; the generator of the
    other suite refers to earlier branches only)."""
    with judged("a dynamic coordinate of a box in a later branch"):
        deck = sut.make_deck(env, width=400, height=300)
        s = deck.new_slide()
        first, later = s.box(width=100, height=100), s.box(width=100, height=100)
        box = first.box(x=later.x(spec["x"]), y=later.y(spec["y"]), width=10, height=10)
        box.rect(bg_color=sut.colour(0))
        later.rect(bg_color=sut.colour(1))
        (root,) = sut.svgs(deck)
        rects = sut.colour_rects(root)
        lx, ly, lw, lh = rects[sut.colour(1)][0]
        require_close(rects[sut.colour(0)][0][0], lx + spec["x"], "x of the box")
        require_close(rects[sut.colour(0)][0][1], ly + spec["y"], "y of the box")
    return ["nontrivial"]


SUITES = {"main": {"strategy": strategy, "check": check, "share": 1.0}, "forward": {"strategy": None, "check": check_forward, "share": 0}}
