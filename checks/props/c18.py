"""C18: arrow heads."""
import math

from hypothesis import strategies as st

from props.c17 import near_points, paint, path_of, points_of
from vlib import sut
from vlib.core import Skip, judged, require, require_close

ID = "C18"
RULE = ("1-4 lines of 2-6 points and paths ending in C, S, Q or T, with a start and/or end arrow of any size, angle, stroke width and inner ratio (arrow objects shared between lines), in all directions and "
        "at distances from 0.01 to 1000, points relative to a box or dynamic; the heads and the shortened line are compared with their geometric definition, in two renders; "
        "non-trivial: two heads, or a head on a line that is neither horizontal nor vertical")
ASSUMPTIONS = ["the two points that give the direction differ", "arrow angles are between 1 and 89 degrees, sizes and widths positive", "paths end in C, S, Q or T if they have an arrow"]
CASES = {"quick": 12500, "thorough": 120000}
EPS = 2e-6


@st.composite
def arrow(draw):
    a = {}
    if draw(st.booleans()):
        a["size"] = draw(st.sampled_from([1, 5, 10, 33.5, 100]))
    if draw(st.booleans()):
        a["angle"] = draw(st.one_of(st.integers(1, 89), st.sampled_from([30, 45, 60, 22.5])))
    if draw(st.integers(0, 2)) == 0:
        a["stroke_width"] = draw(st.sampled_from([0.5, 1, 3, 8]))
    if draw(st.integers(0, 2)) == 0:
        a["inner"] = draw(st.sampled_from([0.2, 0.5, 1, 1.0, 1.7, 3]))
    return a


@st.composite
def points(draw, lo, hi):
    n = draw(st.integers(lo, hi))
    p = [draw(st.integers(-200, 400)), draw(st.integers(-200, 400))]
    out = [p]
    while len(out) < n:
        how = draw(st.sampled_from(["axis", "diagonal", "polar", "polar", "free"]))
        r = draw(st.sampled_from([0.01, 0.5, 3, 10, 100, 1000]))
        if how == "axis":
            d = draw(st.sampled_from([(1, 0), (-1, 0), (0, 1), (0, -1)]))
        elif how == "diagonal":
            d = draw(st.sampled_from([(1, 1), (-1, 1), (1, -1), (-1, -1)]))
        else:
            t = draw(st.floats(0, 6.25, width=16))
            d = (math.cos(t), math.sin(t))
        q = [round(out[-1][0] + r * d[0], 6), round(out[-1][1] + r * d[1], 6)]
        if q == out[-1]:
            q[0] += 1
        out.append(q)
    return out


@st.composite
def shape(draw, arrows):
    v = {"path": draw(st.integers(0, 2)) == 0, "width": draw(st.sampled_from([1, 2, 9])), "dash": draw(st.sampled_from([None, None, "3 1"])), "dyn": draw(st.integers(0, 9)) == 0}
    v["end"] = draw(st.one_of(st.none(), st.integers(0, arrows - 1)))
    if v["path"]:
        last = draw(st.sampled_from("CSQT"))
        form = draw(st.lists(st.sampled_from("MLCSQT" if last != "T" else "QTQTMLCS"), max_size=3)) + [last]
        need = 1 + sum({"M": 1, "L": 1, "C": 3, "S": 2, "Q": 2, "T": 1}[c] for c in form)
        twice = draw(st.integers(0, 4)) == 0
        v["form"], v["twice"] = form, twice
        if twice:
            need += {"C": 3, "S": 2, "Q": 2, "T": 1}[last]
        v["points"] = draw(points(need, need))
        v["bg"] = draw(st.booleans())
        v["start"] = None
    else:
        v["points"] = draw(points(2, 6))
        v["start"] = draw(st.one_of(st.none(), st.integers(0, arrows - 1)))
    return v


@st.composite
def strategy_(draw, tier):
    arrows = draw(st.lists(arrow(), min_size=1, max_size=3))
    return {"arrows": arrows, "shapes": draw(st.lists(shape(len(arrows)), min_size=1, max_size=4)), "at": draw(st.sampled_from([[0, 0], [13, 7], [100, -20]]))}


def strategy(tier):
    return strategy_(tier)


def unit(p, q):
    d = (q[0] - p[0], q[1] - p[1])
    ln = math.hypot(*d)
    return (d[0] / ln, d[1] / ln)


def close_point(got, want, what):
    require(abs(got[0] - want[0]) < EPS * (1 + abs(want[0])) and abs(got[1] - want[1]) < EPS * (1 + abs(want[1])), "%s is %r, expected %r", what, got, want)


def head(e, before, tip, conf, colour, what):
    """Check the element e as an arrow head at tip of a segment that comes from before."""
    size, angle = conf.get("size", 10), math.radians(conf.get("angle", 40))
    stroked = "stroke_width" in conf
    pts = points_of(e.get("points"))
    require(sut.local(e) == ("polyline" if stroked else "polygon"), "%s is a <%s>", what, sut.local(e))
    inner = conf.get("inner") if not stroked else None
    require(len(pts) == (4 if inner else 3), "%s has %d points", what, len(pts))
    close_point(pts[1], tip, "tip of %s" % what)
    d = unit(before, tip)
    sides = []
    for k in (0, 2):
        v = (pts[k][0] - tip[0], pts[k][1] - tip[1])
        require_close(math.hypot(*v), size, "side of %s" % what, 1e-5)
        along = -(v[0] * d[0] + v[1] * d[1])
        across = v[0] * d[1] - v[1] * d[0]
        require(abs(along - size * math.cos(angle)) < 1e-4 * size, "a side of %s ends %r behind the tip, expected %r", what, along, size * math.cos(angle))
        require(abs(abs(across) - size * math.sin(angle)) < 1e-4 * size, "a side of %s ends %r from the axis, expected %r", what, across, size * math.sin(angle))
        sides.append(across)
    require(sides[0] * sides[1] < 0, "both sides of %s are on the same side of the line", what)
    if inner:
        back = inner * size * math.cos(angle)
        close_point(pts[3], (tip[0] - d[0] * back, tip[1] - d[1] * back), "back point of %s" % what)
    p = paint(e)
    if stroked:
        require(p["stroke"] == colour and float(p["stroke-width"] or 1) == conf["stroke_width"], "%s is stroked with %r", what, p)
        require(p["fill"] == "none", "%s is filled with %r", what, p["fill"])
        require((p["stroke-dasharray"] or "none") == "none", "%s is dashed", what)
    else:
        require(p["fill"] == colour, "%s is filled with %r", what, p["fill"])
        require((p["stroke"] or "none") == "none", "%s is stroked with %r", what, p["stroke"])


def shortened(before, tip, conf):
    shift = conf["stroke_width"] / 2 if "stroke_width" in conf else math.cos(math.radians(conf.get("angle", 40))) * conf.get("size", 10) / 2
    d = unit(before, tip)
    return (tip[0] - d[0] * shift, tip[1] - d[1] * shift)


def commands(v, pts):
    form = list(v["form"])
    out = [["M", [pts[0]]]]
    k = 1
    for i, c in enumerate(form):
        n = {"M": 1, "L": 1, "C": 3, "S": 2, "Q": 2, "T": 1}[c]
        if v["twice"] and i == len(form) - 1:
            n *= 2
        out.append([c, pts[k: k + n]])
        k += n
    return out


def last_control(v, pts):
    """The point before the end point that gives the direction of the end of a path"""
    cmds = commands(v, pts)
    if cmds[-1][0] != "T":
        return pts[-2]
    # the control point of T is the reflection of the control point of a preceding Q or T
    current = control = None
    for c, q in cmds:
        for p in q if c == "T" else [None]:
            if c == "T":
                control = (2 * current[0] - control[0], 2 * current[1] - control[1])
                current = p
            else:
                current = q[-1]
                control = q[-2] if c == "Q" else current
    return control


def check(spec, env):
    ox, oy = spec["at"]
    labels = set()
    heads = 0
    slanted = False
    for v in spec["shapes"]:
        if v["path"] and v["end"] is not None and math.dist(last_control(v, v["points"]), v["points"][-1]) < 1e-3:
            raise Skip("an end without a direction")
    with judged("lines with arrows"):
        import elsie

        deck = sut.make_deck(env, width=500, height=400)
        b = deck.new_slide().box(x=ox, y=oy, width=300, height=200)
        arrows = [elsie.Arrow(**a) for a in spec["arrows"]]
        for i, v in enumerate(spec["shapes"]):
            pts = [tuple(p) if not v["dyn"] else b.p(*p) for p in v["points"]]
            kw = {}
            if v["end"] is not None:
                kw["end_arrow"] = arrows[v["end"]]
            if v["start"] is not None:
                kw["start_arrow"] = arrows[v["start"]]
            if v["path"]:
                b.path([tuple([c] + q) for c, q in commands(v, pts)], color=sut.colour(i), bg_color="#eeeeee" if v["bg"] else None, stroke_width=v["width"], stroke_dasharray=v["dash"], **kw)
            else:
                b.line(pts, color=sut.colour(i), stroke_width=v["width"], stroke_dasharray=v["dash"], **kw)
        for turn in (1, 2):
            (root,) = sut.svgs(deck)
            els = list(root)
            k = 0
            for i, v in enumerate(spec["shapes"]):
                colour = sut.colour(i)
                name = "%s %d" % ("path" if v["path"] else "line", i)
                pts = [(x + ox, y + oy) for x, y in v["points"]]
                require(k < len(els), "%s is not drawn", name)
                e = els[k]
                k += 1
                p = paint(e)
                require(p["stroke"] == colour and float(p["stroke-width"]) == v["width"] and (p["stroke-dasharray"] or None) == v["dash"], "%s is stroked with %r", name, p)
                require(p["fill"] == ("#eeeeee" if v["path"] and v["bg"] else "none"), "%s is filled with %r", name, p["fill"])
                want = list(pts)
                todo = []
                if v["start"] is not None:
                    conf = spec["arrows"][v["start"]]
                    want[0] = shortened(pts[1], pts[0], conf)
                    todo.append((pts[1], pts[0], conf, "start head of " + name))
                if v["end"] is not None:
                    conf = spec["arrows"][v["end"]]
                    before = last_control(v, pts) if v["path"] else pts[-2]
                    want[-1] = shortened(before, pts[-1], conf)
                    todo.append((before, pts[-1], conf, "end head of " + name))
                    if v["path"] and v["form"][-1] == "T" and before != pts[-2]:
                        labels.add("smooth end")
                if v["path"]:
                    require(sut.local(e) == "path", "<%s> drawn for %s", sut.local(e), name)
                    merged = []
                    for c, q in commands(v, want):
                        if merged and merged[-1][0] == c and c != "M":
                            merged[-1][1].extend(q)
                        else:
                            merged.append([c, list(q)])
                    got = path_of(e.get("d"))
                    require([c for c, _ in got] == [c for c, _ in merged], "commands of %s are %r", name, e.get("d"))
                    for (c, g), (_, q) in zip(got, merged):
                        near_points(g, q, "command %s of %s" % (c, name))
                else:
                    require(sut.local(e) == "polyline", "<%s> drawn for %s", sut.local(e), name)
                    near_points(points_of(e.get("points")), want, name)
                rest = els[k: k + len(todo)]
                require(len(rest) == len(todo), "%s has %d heads, expected %d", name, len(rest), len(todo))
                # the two heads may come in any order
                if len(todo) == 2 and math.dist(points_of(rest[0].get("points"))[1], todo[0][1]) > math.dist(points_of(rest[0].get("points"))[1], todo[1][1]):
                    rest.reverse()
                for h, (before, tip, conf, what) in zip(rest, todo):
                    head(h, before, tip, conf, colour, what)
                    d = unit(before, tip)
                    slanted = slanted or min(abs(d[0]), abs(d[1])) > 1e-3
                    labels.add("stroked head" if "stroke_width" in conf else "filled head with inner" if conf.get("inner") else "filled head")
                    labels.add("path head" if v["path"] else "line head")
                    if math.dist(before, tip) < conf.get("size", 10):
                        labels.add("segment shorter than the head")
                    if turn == 1:
                        heads += 1
                k += len(todo)
            require(k == len(els), "%d additional elements", len(els) - k)
    if heads >= 2 or slanted:
        labels.add("nontrivial")
    return sorted(labels)
