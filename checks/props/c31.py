"""C31: pixels of the Cairo backend."""
import math
import os
import re

from hypothesis import strategies as st

from vlib import cairo_util, decks, geom, raster, sut
from vlib.core import judged, require

ID = "C31"
RULE = ("slides of 1-7 shapes (rectangles with any corner radii, ellipses, polygons, lines and paths of any commands, filled arrow heads, bitmaps and SVG images of four colours) on boxes of any geometry, with fills, strokes, widths, dashes, rotations, "
        "fragments, z-levels, backgrounds and view boxes; in each PNG the size is checked and up to 220 pixels (a jittered grid, and points at and around the outlines) are compared with the colour of the topmost shape "
        "by exact geometry (winding numbers, distances, positions along dashes); non-trivial: two shapes overlap or a shape is dashed, rotated or in a view box")
ASSUMPTIONS = ["pixels closer than 1.1 to an edge, to the end of a line or dash, or within reach of a mitred corner are not judged", "opaque colours"]
CASES = {"quick": 6000, "thorough": 50000}

COLOURS = {"#ff0000": (255, 0, 0), "lime": (0, 255, 0), "#00f": (0, 0, 255), "#ffff00": (255, 255, 0), "teal": (0, 128, 128), "#123456": (18, 52, 86), "white": (255, 255, 255), "black": (0, 0, 0), "orchid": (218, 112, 214), "#ABCDEF": (171, 205, 239)}
COLOUR = st.sampled_from(sorted(COLOURS))
QUAD = [(255, 0, 0), (0, 255, 0), (0, 0, 255), (255, 255, 0)]
NUM = st.integers(-10, 150)
POINT = st.tuples(NUM, NUM).map(list)
WIDTH = st.sampled_from([1, 3, 4, 6.5, 10, None])
DASH = st.sampled_from([None, None, None, "12", "12 6", "9 5 14", "5 20"])
ANGLE = st.one_of(st.none(), st.none(), st.sampled_from([0, 90, 180, -45]), st.integers(-180, 360))


@st.composite
def item(draw):
    what = draw(st.sampled_from(["rect", "rect", "ellipse", "ellipse", "polygon", "line", "path", "path", "png", "svg"]))
    v = {"what": what, "at": [draw(st.integers(-10, 120)), draw(st.integers(-10, 90)), draw(st.integers(14, 120)), draw(st.integers(14, 90))]}
    if draw(st.integers(0, 3)) == 0:
        v["show"] = draw(st.sampled_from(["1", "2", "2+", "1-2", "3+"]))
    if draw(st.integers(0, 3)) == 0:
        v["z"] = draw(st.integers(-1, 2))
    if what in ("rect", "ellipse", "polygon", "path"):
        v["bg"] = draw(st.one_of(st.none(), COLOUR, COLOUR))
        v["color"] = draw(st.one_of(st.none(), COLOUR))
    if what == "line":
        v["color"] = draw(COLOUR)
    if what not in ("png", "svg"):
        v["width"] = draw(WIDTH)
        v["dash"] = draw(DASH)
    if what not in ("line", "path"):
        v["rotation"] = draw(ANGLE)
    if what == "rect":
        v["rx"], v["ry"] = draw(st.sampled_from([None, None, 0, 8, 30, 500])), draw(st.sampled_from([None, None, 0, 15]))
        if 0 in (v["rx"], v["ry"]):
            v["dash"] = None  # where dashes of a rectangle with one zero radius start is left open
    if what in ("polygon", "line"):
        v["points"] = draw(st.lists(POINT, min_size=3 if what == "polygon" else 2, max_size=6))
        if what == "line" and draw(st.booleans()):
            v["arrow"] = [draw(st.sampled_from([8, 20, 40])), draw(st.sampled_from([20, 40, 60])), draw(st.sampled_from([None, 0.5, 1.6])), draw(st.integers(1, 3))]
    if what == "path":
        cmds = [["M", [draw(POINT)]]]
        for _ in range(draw(st.integers(1, 4))):
            c = draw(st.sampled_from("MLCSSQTT"))
            k = {"M": 1, "L": 1, "C": 3, "S": 2, "Q": 2, "T": 1}[c] * draw(st.sampled_from([1, 1, 1, 2]))
            cmds.append([c, draw(st.lists(POINT, min_size=k, max_size=k))])
        v["commands"] = cmds
    if what in ("png", "svg"):
        v["size"] = [draw(st.integers(2, 40)), draw(st.integers(2, 40))]
        v["scale"] = draw(st.sampled_from([None, None, 1, 2.5]))
        v["alpha"] = draw(st.sampled_from([255, 255, 128, 51])) if what == "png" else 255
        if what == "svg":
            v["unit"] = draw(st.sampled_from(["", "", "px", "in", "cm", "mm", "pt", "pc"]))
            v["inner"] = draw(st.sampled_from([None, None, 1, 0.25, 10]))
    return v


@st.composite
def strategy_(draw, tier):
    return {"wh": draw(st.sampled_from([[160, 120], [120, 160], [200, 80]])), "bg": draw(st.one_of(st.none(), st.none(), COLOUR)), "items": draw(st.lists(item(), min_size=1, max_size=7 if tier == "quick" else 12)),
            "view_box": draw(st.one_of(st.none(), st.none(), st.none(), st.tuples(st.integers(-30, 60), st.integers(-30, 60), st.integers(20, 300), st.integers(20, 300)).map(list),
                                                                       st.tuples(*[st.integers(2, 60).map(lambda v: v / 4)] * 4).map(list))), "seed": draw(st.integers(0, 999))}


def quad(v):
    """The colours of the quarters of an image."""
    k = v.get("turned", 0)
    return QUAD[k:] + QUAD[:k]


def quad_png(w, h, alpha=255):
    """Four coloured quarters of w x h pixels each."""
    import io

    from PIL import Image

    im = Image.new("RGBA" if alpha < 255 else "RGB", (2 * w, 2 * h))
    for k, c in enumerate(QUAD):
        im.paste(c + (alpha,) if alpha < 255 else c, ((k % 2) * w, (k // 2) * h, (k % 2 + 1) * w, (k // 2 + 1) * h))
    f = io.BytesIO()
    im.save(f, "PNG")
    return f.getvalue()


PX = {"": 1, "px": 1, "in": 96, "cm": 96 / 2.54, "mm": 9.6 / 2.54, "pt": 96 / 72, "pc": 16}


def quad_svg(w, h, unit="", inner=None):
    """The same in any unit and with any view box (inner: units of it per pixel)."""
    k = inner or 1
    view = " viewBox='0 0 %r %r'" % (2 * w * k, 2 * h * k) if inner else ""
    return "<svg xmlns='http://www.w3.org/2000/svg' width='%r%s' height='%r%s'%s>%s</svg>" % (2 * w / PX[unit], unit, 2 * h / PX[unit], unit, view, "".join(
        "<rect x='%r' y='%r' width='%r' height='%r' style='fill:#%02x%02x%02x'/>" % ((q % 2) * w * k, (q // 2) * h * k, w * k, h * k, *c) for q, c in enumerate(QUAD)))


def fix_points(pts):
    """No coincident neighbours (they have no direction)."""
    out = [tuple(pts[0])]
    for p in pts[1:]:
        p = tuple(p)
        while p == out[-1]:
            p = (p[0] + 7, p[1])
        out.append(p)
    return out


def build(env, spec, backend, more=None, deck=None):
    import elsie

    if deck is None:
        deck = sut.make_deck(env, backend=backend, width=spec["wh"][0], height=spec["wh"][1])
    kw = {}
    if spec["bg"]:
        kw["bg_color"] = spec["bg"]
    if spec["view_box"]:
        kw["view_box"] = tuple(spec["view_box"])
    s = deck.new_slide(**kw)
    for v in spec["items"]:
        x, y, w, h = v["at"]
        args = {}
        if "show" in v:
            args["show"] = v["show"]
        if "z" in v:
            args["z_level"] = v["z"]
        what = v["what"]
        image = "scale" in v
        if not image:
            args["height"] = h
        if not image or v["scale"] is None:
            args["width"] = w
        b = s.box(x=x, y=y, **args)
        paint = {}
        if "bg" in v:
            paint["bg_color"] = v["bg"]
        if "color" in v:
            paint["color"] = v["color"]
        if v.get("width"):
            paint["stroke_width"] = v["width"]
        if v.get("dash"):
            paint["stroke_dasharray"] = v["dash"]
        if v.get("rotation") is not None:
            paint["rotation"] = v["rotation"]
        if what == "rect":
            b.rect(rx=v["rx"], ry=v["ry"], **paint)
        elif what == "ellipse":
            b.ellipse(**paint)
        elif what == "polygon":
            b.polygon([tuple(p) for p in v["points"]], **paint)
        elif what == "line":
            if "arrow" in v:
                size, angle, inner, ends = v["arrow"]
                a = elsie.Arrow(size, angle=angle, inner=inner or 1.0)
                if ends & 1:
                    paint["start_arrow"] = a
                if ends & 2:
                    paint["end_arrow"] = a
            b.line(fix_points(v["points"]), **paint)
        elif what == "path":
            b.path([tuple([c] + [tuple(p) for p in pts]) for c, pts in v["commands"]], **paint)
        elif more and (what not in ("png", "svg") or "how" in v):
            more(env, b, v)
        else:
            img = {"scale": v["scale"], "rotation": v.get("rotation")}
            if what == "png":
                b.image(decks.asset(env, ".png", quad_png(*v["size"], v.get("alpha", 255))), **img)
            else:
                b.image(decks.asset(env, ".svg", quad_svg(*v["size"], v.get("unit", ""), v.get("inner"))), **img)
    return deck


def moved(pts, at):
    return [(p[0] + at[0], p[1] + at[1]) for p in pts]


def layers_of(v, view):
    """What an item paints, bottom first."""
    x, y, w, h = v["at"]
    what = v["what"]
    kw = dict(colour=v.get("color"), bg=v.get("bg"), width=v.get("width"), dashes=[float(d) for d in v["dash"].split()] if v.get("dash") else None)
    centre = (x + w / 2, y + h / 2)
    if what == "rect":
        rx, ry = v["rx"], v["ry"]
        rx, ry = (ry if rx is None else rx), (rx if ry is None else ry)
        subs = [(raster.rectangle(x, y, w, h, rx or 0, ry or 0), True)]
    elif what == "ellipse":
        subs = [(raster.ellipse(centre[0], centre[1], w / 2, h / 2), True)]
    elif what == "polygon":
        pts = moved(v["points"], (x, y))
        centre = (sum(p[0] for p in pts) / len(pts), sum(p[1] for p in pts) / len(pts))
        subs = [(pts + [pts[0]], True)]
    elif what == "line":
        pts = moved(fix_points(v["points"]), (x, y))
        line, heads = list(pts), []
        if "arrow" in v:
            size, angle, inner, ends = v["arrow"]
            for bit, i, j in ((1, 0, 1), (2, -1, -2)):
                if ends & bit:
                    tip, other = pts[i], pts[j]
                    d = math.dist(tip, other)
                    u = ((tip[0] - other[0]) / d, (tip[1] - other[1]) / d)
                    c, s = size * math.cos(math.radians(angle)), size * math.sin(math.radians(angle))
                    ring = [(tip[0] - u[0] * c - u[1] * s, tip[1] - u[1] * c + u[0] * s), tip, (tip[0] - u[0] * c + u[1] * s, tip[1] - u[1] * c - u[0] * s),
                            (tip[0] - u[0] * c * (inner or 1), tip[1] - u[1] * c * (inner or 1))]
                    heads.append([(ring + [ring[0]], True)])
                    line[i] = (tip[0] - u[0] * c / 2, tip[1] - u[1] * c / 2)
        out = raster.shape([(line, False)], view, **kw)
        for hd in heads:
            out += raster.shape(hd, view, bg=v["color"])
        return out
    elif what == "path":
        subs = [s for s in raster.path([(c, moved(pts, (x, y))) for c, pts in v["commands"]])]
    else:
        iw, ih = 2 * v["size"][0], 2 * v["size"][1]
        k = v["scale"] or w / iw
        turn = geom.mul(view, geom.rotate(v.get("rotation") or 0, x + iw * k / 2, y + ih * k / 2))
        left, top = x, y
        out = []
        for q, c in enumerate(quad(v)):
            ring = raster.rectangle(left + (q % 2) * iw * k / 2, top + (q // 2) * ih * k / 2, iw * k / 2, ih * k / 2)
            f = raster.shape([(ring, True)], turn, bg=c)[0]
            # interpolation of scaled bitmaps mixes neighbouring pixels
            f.blur = max(2.0, k * math.sqrt(abs(view[0] * view[3] - view[1] * view[2]))) if what == "png" else 0
            out.append(f)
        return [Image(out, v.get("alpha", 255) / 255)]
    return raster.shape(subs, geom.mul(view, geom.rotate(v.get("rotation") or 0, *centre)), **kw)


class Image:
    """Four quarters; the colour is a part of the answer."""

    def __init__(self, fills, alpha):
        self.fills = fills
        self.alpha = alpha
        self.box = None

    def at(self, p):
        blur = self.fills[0].blur
        for f in self.fills:
            if blur:
                for a, c, _ in f.rings[0]:
                    if raster.seg_dist(p, a, c)[0] < raster.EDGE + blur:
                        return 0
            r = f.at(p)
            if r:
                if r == 1:
                    self.colour = f.colour
                    return 1
            else:
                return 0
        return -1


def selected(show, step):
    if show is None:
        return True
    if show.endswith("+"):
        return step >= int(show[:-1])
    if "-" in show:
        a, b = show.split("-")
        return int(a) <= step <= int(b)
    return step == int(show)


def view_of(spec):
    if not spec["view_box"]:
        return geom.ID
    x, y, w, h = spec["view_box"]
    W, H = spec["wh"]
    k = min(W / w, H / h)
    return (k, 0.0, 0.0, k, (W - w * k) / 2 - x * k, (H - h * k) / 2 - y * k)


def scene(spec, step):
    view = view_of(spec)
    out = []
    W, H = spec["wh"]
    if spec["bg"]:
        out += raster.shape([(raster.rectangle(0, 0, W, H), True)], view, bg=spec["bg"])
    items = [v for v in spec["items"] if selected(v.get("show"), step)]
    items.sort(key=lambda v: v.get("z", 0))
    groups = []
    for v in items:
        groups.append(layers_of(v, view))
    for g in groups:
        out += g
    return out, groups


def steps_of(spec):
    return max([1] + [int(n) for v in spec["items"] for n in re.findall(r"\d+", v.get("show", ""))])


def samples(spec, layers, step):
    """Pixels to look at."""
    import random

    rnd = random.Random(spec["seed"] * 10 + step)
    W, H = spec["wh"]
    out = set()
    nx, ny = 9, 7
    for i in range(nx):
        for j in range(ny):
            out.add((int((i + rnd.random()) * W / nx), int((j + rnd.random()) * H / ny)))
    marks = []
    for ly in layers:
        for f in getattr(ly, "fills", [ly]):
            if isinstance(f, raster.Fill):
                for r in filter(None, f.rings):
                    marks += [(s[0], 4) for s in rnd.sample(r, min(3, len(r)))]
                    marks.append(((sum(s[0][0] for s in r) / len(r), sum(s[0][1] for s in r) / len(r)), 2))
            else:
                for a, b, _ in rnd.sample(f.pieces, min(8, len(f.pieces))):
                    marks.append((raster.mix(a, b, rnd.random()), f.half + 2))
                    marks.append((raster.mix(a, b, 0.5), 0.3))
    rnd.shuffle(marks)
    for (x, y), r in marks[:150]:
        px, py = int(math.floor(x + rnd.uniform(-r, r))), int(math.floor(y + rnd.uniform(-r, r)))
        if 0 <= px < W and 0 <= py < H:
            out.add((px, py))
    return sorted(out)


def rgb(c):
    return COLOURS[c] if isinstance(c, str) else c


def judge(im, spec, step, what="pixel", paper=False, border=0):
    """Compare a picture (on white paper or on nothing) with the scene; returns the number of judged pixels."""
    layers, groups = scene(spec, step)
    im = im.convert("RGBA")
    px = im.load()
    n = 0
    for x, y in samples(spec, layers, step):
        if not (border <= x < im.size[0] - border and border <= y < im.size[1] - border):
            continue
        want = raster.colours_at(layers, (x + 0.5, y + 0.5))
        if want is None:
            continue
        n += 1
        got = px[x, y]
        if paper:
            w = raster.composed(want + [((255, 255, 255), 1)], rgb)
            require(max(abs(a - b) for a, b in zip(got, w)) <= 4, "%s %r of fragment %d is %r, expected %r", what, (x, y), step, got, w)
        elif not want:
            require(got[3] == 0, "%s %r of fragment %d is %r, but nothing is painted there", what, (x, y), step, got)
        else:
            w = raster.composed(want, rgb)
            # premultiplied 8-bit values are less exact, the more so the less opaque
            tol = 1 if len(want) == 1 and w[3] == 255 else 3 + 255 / w[3]
            require(max(abs(a - b) for a, b in zip(got, w)) <= tol, "%s %r of fragment %d is %r, expected %r", what, (x, y), step, got, w)
    return n, groups


def check(spec, env, pdf=False):
    labels = set()
    with judged("pictures"):
        deck = build(env, spec, "cairo")
        units = sut.render_units(deck, export_type="pdf" if pdf else "png")
        require(len(units) == steps_of(spec), "%d fragments, expected %d", len(units), steps_of(spec))
        for step, u in enumerate(units, 1):
            if pdf:
                im = page_picture(env, u.export(None, "pdf"))
                require(im.size == tuple(spec["wh"]), "the page has size %r", im.size)
                judge(im, spec, step, "point", True)
                continue
            im = cairo_util.picture(u)
            require(im.size == tuple(spec["wh"]), "the picture has size %r", im.size)
            n, groups = judge(im, spec, step)
            if n > 60:
                labels.add("60+ pixels judged")
    for v in spec["items"]:
        labels.add(v["what"])
        if v.get("dash") and v.get("color") or v.get("rotation"):
            labels.add("nontrivial")
    if spec["view_box"]:
        labels.update(("view box", "nontrivial"))
    if len(spec["items"]) > 1:
        boxes = [geom_box(v) for v in spec["items"]]
        if any(a[0] < b[2] and b[0] < a[2] and a[1] < b[3] and b[1] < a[3] for i, a in enumerate(boxes) for b in boxes[:i]):
            labels.update(("overlap", "nontrivial"))
    return sorted(labels)


def page_picture(env, path):
    """A PDF page by an independent renderer, at 96 dpi."""
    import subprocess

    from PIL import Image

    out = os.path.join(env.root, "page")
    p = subprocess.run(["pdftocairo", "-r", "96", "-singlefile", "-png", path, out], capture_output=True, text=True)
    require(p.returncode == 0, "pdftocairo: %s", p.stderr[:200])
    im = Image.open(out + ".png")
    im.load()
    return im


def geom_box(v):
    x, y, w, h = v["at"]
    pts = v.get("points") or [p for _, q in v.get("commands", []) for p in q] or [[0, 0], [w, h]]
    return (x + min(p[0] for p in pts), y + min(p[1] for p in pts), x + max(p[0] for p in pts), y + max(p[1] for p in pts))


SUITES = {"main": {"strategy": strategy_, "check": check, "share": 0.92}, "pdf": {"strategy": strategy_, "check": lambda spec, env: check(spec, env, True), "share": 0.08}}
