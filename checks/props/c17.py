"""C17: geometry and paint of shapes."""
import re

from hypothesis import strategies as st

from vlib import geom, sut
from vlib.core import expect_reject, judged, require, require_close

ID = "C17"
RULE = ("1-5 shapes (rect, ellipse, polygon, line, path with M/L/C/S/Q/T of any number of points) with any subset of arguments, on nested boxes of known geometry with paddings (via the box or one of its items), "
        "points given as tuples or lists of numbers, 'NN', 'NN%', '[NN%]' or dynamic values, or as dynamic points of other boxes; geometry, paint and rotation are compared with the arguments; "
        "suite reject: malformed points and commands; non-trivial: two shapes with an optional argument or a dynamic point")
ASSUMPTIONS = ["a stroke width of zero is not used", "arrow heads are judged by C18"]

COLOURS = ["red", "#123456", "rgb(1,2,3)", "#abc"]
NUM = st.one_of(st.integers(-50, 300), st.floats(-50, 300, width=16).map(lambda v: round(v, 3)))
COORD = st.one_of(NUM, NUM, st.integers(0, 99).map(str), st.integers(0, 150).map(lambda v: "%d%%" % v), st.integers(0, 100).map(lambda v: "[%d%%]" % v))


@st.composite
def box(draw, i):
    b = {"p": draw(st.integers(0, i)), "x": draw(NUM), "y": draw(NUM), "w": draw(st.integers(0, 300)), "h": draw(st.integers(0, 300)), "pads": [0, 0, 0, 0], "horizontal": draw(st.booleans())}
    if draw(st.booleans()):
        pads = draw(st.lists(st.integers(0, 15), min_size=4, max_size=4))
        b["pads"] = [min(p, (b["w"] if k < 2 else b["h"]) / 2) for k, p in enumerate(pads)]
    return b


@st.composite
def coord(draw, n, axis):
    if draw(st.integers(0, 5)):
        return draw(COORD)
    v = {"box": draw(st.integers(0, n)), "v": draw(COORD), "axis": draw(st.sampled_from("xy")) if draw(st.integers(0, 3)) == 0 else axis}
    if draw(st.booleans()):
        v["add"] = draw(NUM)
    if draw(st.integers(0, 2)) == 0:
        v["times"] = draw(st.sampled_from([2, 0.5, -1]))
    return v


@st.composite
def point(draw, n):
    if draw(st.integers(0, 3)):
        return {"xy": [draw(coord(n, "x")), draw(coord(n, "y"))], "list": draw(st.booleans())}
    v = {"of": draw(st.integers(0, n)), "at": draw(st.one_of(st.none(), st.tuples(COORD, COORD).map(list)))}
    v["adds"] = draw(st.lists(st.tuples(NUM, NUM).map(list), max_size=2))
    return v


@st.composite
def shape(draw, n):
    what = draw(st.sampled_from(["rect", "ellipse", "polygon", "line", "path", "path"]))
    v = {"what": what, "on": draw(st.integers(0, n)), "via": draw(st.integers(0, 3)) == 0, "kw": {}}
    kw = v["kw"]
    names = ["color", "stroke_width", "stroke_dasharray"] + (["bg_color"] if what != "line" else []) + (["rx", "ry"] if what == "rect" else []) + (["rotation"] if what in ("rect", "ellipse", "polygon") else [])
    for name in names:
        if draw(st.booleans()):
            kw[name] = draw({
                "color": st.one_of(st.none(), st.sampled_from(COLOURS)) if what not in ("line",) else st.sampled_from(COLOURS), "bg_color": st.one_of(st.none(), st.sampled_from(COLOURS)),
                "stroke_width": st.sampled_from([1, 2, 0.5, 7]), "stroke_dasharray": st.sampled_from(["4", "4 2", "1 2 3", None]),
                "rx": st.sampled_from([0, 1, 5.5, 200, None]), "ry": st.sampled_from([0, 2, 7, None]), "rotation": st.one_of(st.none(), st.sampled_from([0, 90, -45]), st.floats(-360, 360, width=16)),
            }[name])
    if what == "polygon":
        v["points"] = draw(st.lists(point(n), min_size=1, max_size=6))
    elif what == "line":
        v["points"] = draw(st.lists(point(n), min_size=2, max_size=6))
    elif what == "path":
        cmds = [["M", [draw(point(n))]]]
        for _ in range(draw(st.integers(0, 5))):
            c = draw(st.sampled_from("MLCSQT"))
            k = {"M": 1, "L": 1, "C": 3, "S": 2, "Q": 2, "T": 1}[c] * draw(st.sampled_from([1, 1, 1, 2, 3]))
            cmds.append([c, draw(st.lists(point(n), min_size=k, max_size=k))])
        v["commands"] = cmds
        v["clist"] = draw(st.booleans())
        # a path without commands draws nothing
        v["nothing"] = draw(st.sampled_from([None, None, None, "plain", "arrow"]))
    return v


@st.composite
def case(draw, tier):
    n = draw(st.integers(0, 4))
    boxes = [draw(box(i)) for i in range(n)]
    return {"boxes": boxes, "shapes": draw(st.lists(shape(n), min_size=1, max_size=5 if tier == "quick" else 10)), "late": draw(st.booleans())}


W, H = 640, 480


def areas(spec):
    out = [(0, 0, W, H)]
    for b in spec["boxes"]:
        x, y, _, _ = out[b["p"]]
        l, r, t, d = b["pads"]
        out.append((x + b["x"] + l, y + b["y"] + t, b["w"] - l - r, b["h"] - t - d))
    return out


def value(c, start, size):
    if isinstance(c, str):
        if c.startswith("["):
            return start + size * float(c[1:-2]) / 100
        if c.endswith("%"):
            return start + size * float(c[:-1]) / 100
        return start + float(c)
    return start + c


def where(p, own, area):
    """Model: the coordinates of a point."""
    if "xy" in p:
        out = []
        for k, c in enumerate(p["xy"]):
            if isinstance(c, dict):
                a = area[c["box"]]
                i = "xy".index(c["axis"])
                v = value(c["v"], a[i], a[i + 2]) + c.get("add", 0)
                out.append(v * c.get("times", 1))
            else:
                out.append(value(c, area[own][k], area[own][k + 2]))
        return tuple(out)
    a = area[p["of"]]
    at = p["at"] or ["50%", "50%"]
    x, y = value(at[0], a[0], a[2]), value(at[1], a[1], a[3])
    for dx, dy in p["adds"]:
        x, y = x + dx, y + dy
    return (x, y)


def real(p, boxes):
    """The same point for elsie."""
    if "xy" in p:
        out = []
        for c in p["xy"]:
            if isinstance(c, dict):
                v = getattr(boxes[c["box"]], c["axis"])(c["v"])
                if "add" in c:
                    v = v.add(c["add"])
                if "times" in c:
                    v = v.map(lambda q, t=c["times"]: q * t)
                out.append(v)
            else:
                out.append(c)
        return out if p["list"] else tuple(out)
    b = boxes[p["of"]]
    v = b.mid_point() if p["at"] is None else b.p(*p["at"])
    for dx, dy in p["adds"]:
        v = v.add(dx, dy)
    return v


def paint(e):
    s = sut.style_of(e)
    return {k: s.get(k, e.get(k)) for k in ("fill", "stroke", "stroke-width", "stroke-dasharray")}


def numbers(text):
    try:
        return [float(v) for v in re.split(r"[\s,]+", text.strip())]
    except ValueError:
        require(False, "malformed numbers %r", text)


def points_of(text):
    v = numbers(text)
    require(len(v) % 2 == 0, "odd number of coordinates in %r", text)
    return list(zip(v[::2], v[1::2]))


def path_of(d):
    """[(command, points)]; repeated commands are joined."""
    out = []
    parts = re.findall(r"([A-Za-z])([^A-DF-Za-df-z]*)", d)
    require("".join(a + b for a, b in parts).strip() == d.strip(), "malformed path %r", d)
    for c, rest in parts:
        pts = points_of(rest) if rest.strip() else []
        if out and out[-1][0] == c and c != "M":
            out[-1][1].extend(pts)
        else:
            out.append([c, pts])
    return out


def near_points(got, want, what):
    require(len(got) == len(want), "%s has %d points, expected %d", what, len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        require_close(g[0], w[0], "x of point %d of %s" % (i, what))
        require_close(g[1], w[1], "y of point %d of %s" % (i, what))


def call(o, v, boxes):
    kw = v["kw"]
    if v["what"] in ("rect", "ellipse"):
        return getattr(o, v["what"])(**kw)
    if v["what"] == "path":
        mk = list if v["clist"] else tuple
        return o.path([mk([c] + [real(p, boxes) for p in pts]) for c, pts in v["commands"]], **kw)
    return getattr(o, v["what"])([real(p, boxes) for p in v["points"]], **kw)


def build(env, spec, late=False):
    deck = sut.make_deck(env, width=W, height=H)
    s = deck.new_slide()
    boxes = [s]
    for b in spec["boxes"]:
        l, r, t, d = b["pads"]
        boxes.append(boxes[b["p"]].box(x=b["x"], y=b["y"], width=b["w"], height=b["h"], p_left=l, p_right=r, p_top=t, p_bottom=d, horizontal=b["horizontal"]))
    return deck, boxes


def check(spec, env):
    area = areas(spec)
    with judged("shapes"):
        import elsie

        deck, boxes = build(env, spec)
        for i, v in enumerate(spec["shapes"]):
            o = boxes[v["on"]]
            if v["via"]:
                o = o.rect(bg_color=sut.colour(1000 + i))
            if v.get("nothing"):
                kw = dict(v["kw"])
                if v["nothing"] == "arrow":
                    kw["end_arrow"] = elsie.Arrow(5)
                o = o.path([], **kw) if v["via"] else o
                o.path([], **kw)
            call(o, v, boxes)
        (root,) = sut.svgs(deck)
        helpers = {sut.colour(1000 + i) for i in range(len(spec["shapes"]))}
        els = [e for e in root if sut.style_of(e).get("fill") not in helpers]
        # painting order follows the tree of boxes
        order = []

        def walk(b):
            mine = [(None, i) for i, v in enumerate(spec["shapes"]) if v["on"] == b]
            for j, q in enumerate(spec["boxes"]):
                if q["p"] == b:
                    walk(j + 1)
            order.extend(i for _, i in mine)

        walk(0)
        require(len(els) == len(order), "%d elements drawn for %d shapes", len(els), len(order))
        labels = set()
        rich = 0
        for e, i in zip(els, order):
            v = spec["shapes"][i]
            kw, what = v["kw"], v["what"]
            tag = {"line": "polyline"}.get(what, what)
            require(sut.local(e) == tag, "<%s> drawn for %s", sut.local(e), what)
            labels.add(what)
            x, y, w, h = area[v["on"]]
            name = "%s(%r)" % (what, kw)
            centre = (x + w / 2, y + h / 2)
            if what == "rect":
                for g, q, n in zip(sut.rect_of(e), (x, y, w, h), ("x", "y", "width", "height")):
                    require_close(g, q, "%s of %s" % (n, name))
                got = {n: e.get(n) for n in ("rx", "ry")}
                wanted = {n: kw.get(n) for n in ("rx", "ry")}
                # what a renderer makes of it: a missing radius is the other one
                def corners(d):
                    a, b = d["rx"], d["ry"]
                    a, b = (b if a is None else a), (a if b is None else b)
                    return float(a or 0), float(b or 0)
                require(corners(got) == corners(wanted) or 0.0 in corners(got) and 0.0 in corners(wanted), "corner radii of %s are %r", name, got)
            elif what == "ellipse":
                for g, q, n in zip([sut.fl(e, k) for k in ("cx", "cy", "rx", "ry")], (centre[0], centre[1], w / 2, h / 2), ("cx", "cy", "rx", "ry")):
                    require_close(g, q, "%s of %s" % (n, name))
            elif what in ("polygon", "line"):
                want = [where(p, v["on"], area) for p in v["points"]]
                near_points(points_of(e.get("points")), want, name)
                centre = (sum(p[0] for p in want) / len(want), sum(p[1] for p in want) / len(want))
            else:
                want = []
                for c, pts in v["commands"]:
                    pts = [where(p, v["on"], area) for p in pts]
                    if want and want[-1][0] == c and c != "M":
                        want[-1][1].extend(pts)
                    else:
                        want.append([c, pts])
                got = path_of(e.get("d"))
                require([c for c, _ in got] == [c for c, _ in want], "commands of %s are %r, expected %r", name, e.get("d"), want)
                for (c, g), (_, q) in zip(got, want):
                    near_points(g, q, "command %s of %s" % (c, name))
            p = paint(e)
            default = "black" if what in ("line", "path") else None
            colour, bg = kw.get("color", default), kw.get("bg_color")
            require((p["fill"] or "black") == (bg or "none"), "fill of %s is %r", name, p["fill"])
            require((p["stroke"] or "none") == (colour or "none"), "stroke of %s is %r", name, p["stroke"])
            if colour:
                require(float(p["stroke-width"] or 1) == (kw.get("stroke_width") or 1), "stroke width of %s is %r", name, p["stroke-width"])
                require((p["stroke-dasharray"] or "none") == (kw.get("stroke_dasharray") or "none"), "dashes of %s are %r", name, p["stroke-dasharray"])
            m = geom.parse_transform(e.get("transform"))
            require(geom.same(m, geom.rotate(kw.get("rotation") or 0, *centre)), "transform of %s is %r, its centre is %r", name, e.get("transform"), centre)
            if kw.get("rotation"):
                labels.add("rotated")
            if kw:
                rich += 1
            if "'of'" in repr(v) or "'box'" in repr(v):
                labels.add("dynamic point")
                rich += 1
        if rich >= 2:
            labels.add("nontrivial")
    return sorted(labels)


# ---------------------------------------------------------------- rejections

BAD_POINTS = [[], [1], [1, 2, 3], "12", "1,2", None, 5, {"x": 1}, [None], [1, "abc"], ["5%%", 1], ["[5]", 1], [[1], 2], ["", 1]]
BAD_COMMANDS = [["Z", 0], ["m", 1], ["X", 1], ["A", 1], ["", 1], ["C", 1], ["C", 2], ["C", 4], ["Q", 1], ["Q", 3], ["S", 1], ["S", 5], [None, 1], ["ML", 1], ["H", 1]]


@st.composite
def reject_case(draw, tier):
    what = draw(st.sampled_from(["point", "point", "command", "shape"]))
    good = draw(st.lists(point(0), min_size=3, max_size=6))
    v = {"what": what, "good": good, "at": draw(st.integers(0, 5)), "api": draw(st.sampled_from(["polygon", "line", "path"]))}
    if what == "point":
        v["bad"] = draw(st.sampled_from(BAD_POINTS))
        v["tuple"] = draw(st.booleans())
    elif what == "command":
        v["bad"] = draw(st.sampled_from(BAD_COMMANDS))
    else:
        v["bad"] = draw(st.sampled_from(["one point", "no points", "no tuple", "empty command", "none"]))
    return v


def check_reject(spec, env):
    spec0 = {"boxes": []}
    with judged("setup"):
        deck, boxes = build(env, spec0)
        good = [real(p, boxes) for p in spec["good"]]
        s = boxes[0]
    bad = spec["bad"]

    def attempt(call):
        def run():
            call()
            return sut.render_units(deck)[0].get_svg()[-300:]
        return run

    if spec["what"] == "point":
        if isinstance(bad, list) and spec["tuple"]:
            bad = tuple(bad)
        pts = list(good)
        pts.insert(spec["at"] % (len(pts) + 1), bad)
        if spec["api"] == "path":
            expect_reject("path through %r" % (bad,), attempt(lambda: s.path([("M", pts[0])] + [("L", p) for p in pts[1:]])))
        else:
            expect_reject("%s through %r" % (spec["api"], bad), attempt(lambda: getattr(s, spec["api"])(pts)))
    elif spec["what"] == "command":
        cmd = tuple([bad[0]] + (good * 3)[: bad[1]])
        cmds = [("M", good[0]), ("L", good[1])]
        cmds.insert(1 + spec["at"] % 2, cmd)
        expect_reject("path with %s and %d points" % (bad[0], bad[1]), attempt(lambda: s.path(cmds)))
    elif bad == "one point":
        expect_reject("line of one point", attempt(lambda: s.line(good[:1])))
    elif bad == "no points":
        expect_reject("line without points", attempt(lambda: s.line([])))
    elif bad == "no tuple":
        expect_reject("path of strings", attempt(lambda: s.path(["M 1 2", "L 3 4"])))
    elif bad == "empty command":
        expect_reject("path with an empty command", attempt(lambda: s.path([("M", good[0]), ()])))
    else:
        expect_reject("path with None", attempt(lambda: s.path([("M", good[0]), None])))
    return [spec["what"], "nontrivial"]


SUITES = {"shapes": {"strategy": case, "check": check, "share": 0.85}, "reject": {"strategy": reject_case, "check": check_reject, "share": 0.15}}
CASES = {"quick": 8750, "thorough": 80000}
