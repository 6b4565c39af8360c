"""C32: the two backends against each other, with the real Inkscape."""
import io
import math
import os
import re
import subprocess
import zipfile

from hypothesis import strategies as st

from props import c31
from vlib import cairo_util, decks, raster, sut
from vlib.core import Skip, judged, require

ID = "C32"
RULE = ("suite shapes: slides of 1-7 shapes and images (as in C31, with SVG and OpenRaster images of labelled layers and stroked arrows); each pixel of a fragment must be within the colours of the 3x3 (for magnified "
        "bitmaps: wider) neighbourhood in the picture of the real Inkscape, and vice versa; suite texts: 1-3 slides with a text of up to 6 sections of distinct colours, styles, lines, fonts, sizes, alignments, rotations, "
        "view boxes and boxes; for each colour the extent, the amount of ink and the shape of the ink in the two pictures are compared; suite chars: characters of exported Cairo PDF pages; "
        "non-trivial: two items, or two lines or sections, or a view box")
ASSUMPTIONS = ["text widths of the two backends differ by up to 3 % and half a pixel per character", "one text size per text", "opaque colours"]
CASES = {"quick": 3200, "thorough": 40000}
TOLERANCE = 24
SLACK = 2.6


# ---------------------------------------------------------------- shapes

LABELS = st.one_of(st.none(), st.sampled_from(["a", "x **1", "**2", "**2+", "q **1-2", "**3"]))


@st.composite
def layers(draw):
    v = {"what": draw(st.sampled_from(["layers", "ora"])), "at": [draw(st.integers(-10, 120)), draw(st.integers(-10, 90)), draw(st.integers(14, 120)), draw(st.integers(14, 90))],
         "scale": draw(st.sampled_from([None, None, 1, 2.5])), "rotation": draw(c31.ANGLE), "size": [draw(st.integers(10, 60)), draw(st.integers(10, 60))], "parts": []}
    if draw(st.integers(0, 3)) == 0:
        v["show"] = draw(st.sampled_from(["1", "2", "2+"]))
    if draw(st.integers(0, 3)) == 0:
        v["begin"] = draw(st.integers(1, 3))
    for _ in range(draw(st.integers(1, 4))):
        v["parts"].append({"label": draw(LABELS), "rect": [draw(st.integers(0, 40)), draw(st.integers(0, 40)), draw(st.integers(3, 50)), draw(st.integers(3, 50))], "colour": draw(st.sampled_from(c31.QUAD)),
                           "opacity": draw(st.sampled_from([1, 1, 0.5])), "group": draw(st.sampled_from([None, None, [5, 3], [-4, 0]]))})
    return v


def ambiguous_dash(v):
    """Whether a dash begins or ends about where an outline turns or is closed."""
    w, h = v["at"][2:]
    closed = True
    if v["what"] == "rect":
        rx, ry = v["rx"], v["ry"]
        rx, ry = (ry if rx is None else rx), (rx if ry is None else ry)
        rings = [raster.rectangle(0, 0, w, h, rx or 0, ry or 0)]
    elif v["what"] == "ellipse":
        rings = [raster.ellipse(0, 0, w / 2, h / 2)]
    elif v["what"] == "polygon":
        rings = [[tuple(q) for q in v["points"] + v["points"][:1]]]
    elif v["what"] == "line":
        rings, closed = [c31.fix_points(v["points"])], False
    else:
        rings, closed = [p for p, _ in raster.path([(c, [tuple(q) for q in pts]) for c, pts in v["commands"]])], False
    dashes = [float(d) for d in v["dash"].split()]
    ends = [0.0]
    for d in dashes * 2:
        ends.append(ends[-1] + d)

    def near(pos):
        return min(abs(pos % ends[-1] - e) for e in ends) < 1

    for ring in rings:
        segs = list(zip(ring, ring[1:]))
        if any(math.dist(a, b) < 1e-9 for a, b in segs):
            return True
        length = 0.0
        for s, t in zip(segs, segs[1:]):
            length += math.dist(*s)
            if (raster.turn(s, t) > 170 or raster.turn(s, t) > 15 and near(length)):
                return True
        length += math.dist(*segs[-1]) if segs else 0
        if closed and (length <= ends[-1] or near(length)):
            return True
    return False


@st.composite
def shapes(draw, tier):
    spec = draw(c31.strategy_(tier))
    for v in spec["items"]:
        if v["what"] == "line" and draw(st.integers(0, 3)) == 0:
            v["thick"] = draw(st.sampled_from([1, 3]))
            v.setdefault("arrow", [20, 40, None, 3])
        if v.get("dash") and ambiguous_dash(v):
            v["dash"] = None
    if draw(st.integers(0, 2)) == 0:
        spec["items"].insert(draw(st.integers(0, len(spec["items"]))), draw(layers()))
    return spec


def png_of(w, h, rect, colour):
    from PIL import Image

    im = Image.new("RGBA", (w, h))
    x, y, a, b = rect
    im.paste(colour + (255,), (x, y, min(x + a, w), min(y + b, h)))
    out = io.BytesIO()
    im.save(out, "PNG")
    return out.getvalue()


def magnification(v, spec):
    view = c31.view_of(spec)
    return (v["scale"] or v["at"][2] / v["size"][0]) * math.sqrt(abs(view[0] * view[3] - view[1] * view[2]))


def layered(env, b, v, spec):
    w, h = v["size"]
    scale = v["scale"]
    if v["what"] == "layers":
        body = ""
        for p in v["parts"]:
            label = " i:label='%s'" % p["label"] if p["label"] else ""
            # what lies outside of the image is left to the renderer of the SVG
            dx, dy = p["group"] or (0, 0)
            x, y = max(p["rect"][0], -dx), max(p["rect"][1], -dy)
            inner = (x, y, max(0, min(x + p["rect"][2], w - dx) - x), max(0, min(y + p["rect"][3], h - dy) - y))
            e = "<rect%s x='%d' y='%d' width='%d' height='%d' style='fill:#%02x%02x%02x;opacity:%s'/>" % ((label,) + inner + tuple(p["colour"]) + (p["opacity"],))
            body += "<g transform='translate(%d,%d)'>%s</g>" % (*p["group"], e) if p["group"] else e
        path = decks.asset(env, ".svg", "<svg xmlns='http://www.w3.org/2000/svg' xmlns:i='http://www.inkscape.org/namespaces/inkscape' width='%d' height='%d'>%s</svg>" % (w, h, body))
    else:
        # about as many pixels as it has in the picture: resampling differs
        k = magnification(v, spec)
        f = max(1, round(w * k)) / w
        w, h, scale = max(1, round(w * f)), max(1, round(h * f)), scale and scale / f
        out = io.BytesIO()
        with zipfile.ZipFile(out, "w") as z:
            def add(name, data):
                z.writestr(zipfile.ZipInfo(name), data)  # without a time: the same content has the same bytes
            add("mimetype", "image/openraster")
            stack = "".join('<layer name="%s" src="data/%d.png" x="0" y="0" opacity="%s"/>' % (p["label"] or "", i, p["opacity"]) for i, p in reversed(list(enumerate(v["parts"]))))
            add("stack.xml", '<?xml version="1.0" encoding="UTF-8"?><image w="%d" h="%d"><stack>%s</stack></image>' % (w, h, stack))
            for i, p in enumerate(v["parts"]):
                add("data/%d.png" % i, png_of(w, h, [round(c * f) for c in p["rect"]], tuple(p["colour"])))
        path = decks.asset(env, ".ora", out.getvalue())
    kw = {"show_begin": v["begin"]} if "begin" in v else {}
    b.image(path, scale=scale, rotation=v["rotation"], **kw)


def inkscape(env):
    """A real Inkscape per worker."""
    key = "real inkscape"
    s = env.shared.get(key)
    if s is None or s.shell.process.poll() is not None:
        from elsie.render.inkscape import InkscapeShell

        for name in ("INKSCAPE_PROFILE_DIR", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "HOME"):
            d = os.path.join(env.root, "ink-" + name.lower())
            os.makedirs(d, exist_ok=True)
            os.environ[name] = d
        with judged("starting the real Inkscape"):
            s = env.shared[key] = sut._Shell(InkscapeShell("/usr/bin/inkscape"))
    return s.shell


def picture_of(env, unit):
    from PIL import Image

    out = os.path.join(env.root, "ink.png")
    if os.path.exists(out):
        os.unlink(out)
    inkscape(env).convert_to_pdf(unit.get_svg().encode(), out, "png")
    require(os.path.isfile(out), "Inkscape could not export a drawing")
    im = Image.open(out)
    im.load()
    return im


def on_grey(im):
    from PIL import Image

    im = im.convert("RGBA")
    out = Image.new("RGBA", im.size, (127, 127, 127, 255))
    out.alpha_composite(im)
    return out.convert("RGB")


def beyond(a, b, r, tolerance):
    """The pixels of a that are not within the colours around the place in b."""
    from PIL import ImageChops, ImageFilter

    lo, hi = b.filter(ImageFilter.MinFilter(2 * r + 1)), b.filter(ImageFilter.MaxFilter(2 * r + 1))
    d = ImageChops.lighter(ImageChops.subtract(a, hi), ImageChops.subtract(lo, a))
    if max(hi for _, hi in d.getextrema()) <= tolerance:
        return []
    w = a.size[0]
    return [(i % w, i // w) for i, p in enumerate(d.getdata()) if max(p) > tolerance]


def radius(spec):
    """How far interpolation mixes the pixels of the images."""
    r = 1
    view = c31.view_of(spec)
    for v in spec["items"]:
        if v["what"] == "png":
            k = v["scale"] or v["at"][2] / (2 * v["size"][0])
            k *= math.sqrt(abs(view[0] * view[3] - view[1] * view[2]))
            if k != 1 or v.get("rotation") or spec["view_box"]:
                r = max(r, math.ceil(k) + 1)
        elif v["what"] == "ora":
            r = max(r, 2)
    return r


def check_shapes(spec, env):
    labels = set()
    with judged("pictures"):
        more = lambda e, b, v: layered(e, b, v, spec)
        a = sut.render_units(c31.build(env, spec, "cairo", more), export_type="png")
        b = sut.render_units(c31.build(env, spec, None, more))
        require(len(a) == len(b), "%d fragments (Cairo), %d fragments (Inkscape)", len(a), len(b))
        r = radius(spec)
        # the bitmaps in OpenRaster images are resampled by different libraries
        tolerance = 110 if any(v["what"] == "ora" for v in spec["items"]) else TOLERANCE
        if r > 12:
            raise Skip("strongly magnified bitmaps")
        for step, (u, v) in enumerate(zip(a, b), 1):
            raw = cairo_util.picture(u), picture_of(env, v)
            require(raw[0].size == raw[1].size, "sizes %r (Cairo) and %r (Inkscape)", raw[0].size, raw[1].size)
            p, q = map(on_grey, raw)
            bad = beyond(p, q, r, tolerance) + beyond(q, p, r, tolerance)
            if bad:
                x, y = min(bad)
                require(False, "pixel %r of fragment %d is %r (Cairo), %r (Inkscape); %d such pixels", (x, y), step, raw[0].getpixel((x, y)), raw[1].getpixel((x, y)), len(bad))
    labels.update(v["what"] for v in spec["items"])
    if r == 1:
        labels.add("exact")
    if len(a) > 1:
        labels.add("fragments")
    if len(spec["items"]) > 1 or spec["view_box"]:
        labels.add("nontrivial")
    return sorted(labels)


# ---------------------------------------------------------------- texts

COLOURS = {"red": (255, 0, 0), "lime": (0, 255, 0), "blue": (0, 0, 255), "fuchsia": (255, 0, 255), "aqua": (0, 255, 255), "yellow": (255, 255, 0)}
NAMES = list(COLOURS)
FRAME = (255, 136, 0)
STYLES = {"plain": {}, "bold": {"bold": True}, "mono": {"font": "monospace"}, "slant": {"font": "monospace", "italic": True}, "serif": {"font": "serif"}}
LETTERS = "abcdehkmnopsxyHTWE"
WORD = st.text(alphabet=LETTERS, min_size=1, max_size=6)


@st.composite
def text_slide(draw):
    sections, n = [], draw(st.integers(1, 6))
    for i in range(n):
        words = draw(st.lists(WORD, min_size=1, max_size=2))
        sections.append({"text": draw(st.sampled_from([" ", " ", "\n"])).join(words), "style": draw(st.sampled_from(["plain", "plain"] + sorted(STYLES))), "before": draw(st.sampled_from(["", " ", " ", "\n", "\n", "\n\n"])) if i else "",
                         "tag": draw(st.integers(0, 9)) < 6})
    v = {"sections": sections, "at": [draw(st.integers(0, 150)), draw(st.integers(0, 90))], "size": draw(st.sampled_from([16, 20, 24, 31])), "font": draw(st.sampled_from(["sans-serif", "sans-serif", "monospace", "serif"])),
         "bold": draw(st.sampled_from([None, None, True])), "align": draw(st.sampled_from(["left", "middle", "right"])), "spacing": draw(st.sampled_from([1.2, 1.2, 1.0, 1.5, 2.0])),
         "rotation": draw(st.one_of(st.none(), st.none(), st.sampled_from([90, 180, -90]), st.integers(-45, 45))), "fit": draw(st.sampled_from([False, False, True])),
         "view_box": draw(st.one_of(st.none(), st.none(), st.sampled_from([[0, 0, 240, 160], [-60, -30, 720, 450], [40, 10, 300, 200]]))), "frame": draw(st.one_of(st.none(), st.integers(0, 5), st.integers(0, 5), st.just("line"))),
         "box": [draw(st.one_of(st.none(), st.integers(100, 300))), draw(st.one_of(st.none(), st.integers(60, 200)))]}
    if n > 1 and draw(st.booleans()):
        i = draw(st.integers(0, n - 2))
        v["outer"] = [i, draw(st.integers(i + 1, n - 1))]
        if draw(st.booleans()):
            # a frame around a section that is nested in a longer one
            k = v["frame"] = draw(st.integers(i, v["outer"][1] - 1))
            v["rotation"] = None
            sections[k].update(tag=True, text=sections[k]["text"].replace("\n", ""))
            sections[k + 1]["before"] = " "
    if v["fit"]:
        v["box"] = [draw(st.integers(100, 300)), draw(st.integers(60, 200))]
    return v


def text_strategy(tier):
    return st.lists(text_slide(), min_size=1, max_size=2).map(lambda s: {"slides": s})


def text_of(v):
    out = ""
    for i, s in enumerate(v["sections"]):
        t = "~s%d{%s}" % (i, s["text"])
        outer = v.get("outer")
        out += s["before"] + ("~#o{" if outer and outer[0] == i else "") + ("~#n%d{%s}" % (i, t) if s["tag"] else t) + ("}" if outer and outer[1] == i else "")
    return out


def text_deck(env, spec, backend):
    import elsie

    deck = sut.make_deck(env, backend=backend, width=480, height=300)
    for v in spec["slides"]:
        kw = {"view_box": tuple(v["view_box"])} if v["view_box"] else {}
        slide = deck.new_slide(**kw)
        for i, s in enumerate(v["sections"]):
            slide.set_style("s%d" % i, elsie.TextStyle(color=NAMES[i], **STYLES[s["style"]]))
        w, h = v["box"]
        box = slide.box(x=v["at"][0], y=v["at"][1], width=w, height=h)
        style = dict(size=v["size"], font=v["font"], align=v["align"], line_spacing=v["spacing"], color="black")
        if v["bold"]:
            style["bold"] = True
        t = box.text(text_of(v), elsie.TextStyle(**style), scale_to_fit=v["fit"], rotation=v["rotation"])
        frame = framed(v)
        if frame is not None:
            b = t.line_box(0, z_level=-1) if frame == "line" else t.inline_box("#n%d" % frame, z_level=-1)
            b.rect(color="#ff8800", stroke_width=2)
    return deck


def framed(v):
    if v["rotation"]:
        return None  # boxes of sections do not turn
    if v["frame"] == "line" or v["frame"] is None:
        return v["frame"]
    k = v["frame"] % len(v["sections"])
    return k if v["sections"][k]["tag"] and "\n" not in v["sections"][k]["text"] else None


def inks(im):
    """Colour -> (extent, amount of ink, picture of the ink)."""
    from PIL import Image

    im = im.convert("RGBA")
    w, h = im.size
    planes = {}
    for i, (r, g, b, a) in enumerate(im.getdata()):
        if a < 40:
            continue
        for name, c in list(COLOURS.items()) + [("frame", FRAME)]:
            if abs(r - c[0]) + abs(g - c[1]) + abs(b - c[2]) <= 60:
                p = planes.setdefault(name, [w, h, -1, -1, 0])
                x, y = i % w, i // w
                p[4] += a / 255
                if a >= 90:
                    p[0], p[1], p[2], p[3] = min(p[0], x), min(p[1], y), max(p[2], x), max(p[3], y)
                break
    return planes


def check_texts(spec, env):
    labels = set()
    with judged("pictures"):
        a = sut.render_units(text_deck(env, spec, "cairo"), export_type="png")
        ink = inkscape(env)
        saved, env.shared["shell"] = sut._Shell(sut.shell(env)), env.shared["real inkscape"]
        try:
            b = sut.render_units(text_deck(env, spec, None))
        finally:
            env.shared["shell"] = saved
        require(len(a) == len(b) == len(spec["slides"]), "%d fragments (Cairo), %d fragments (Inkscape)", len(a), len(b))
        for v, u, q in zip(spec["slides"], a, b):
            p, q = cairo_util.picture(u), picture_of(env, q)
            compare(v, p, q)
            if len(v["sections"]) > 1 or v["view_box"]:
                labels.add("nontrivial")
            if framed(v) is not None:
                labels.add("line box" if v["frame"] == "line" else "inline box")
            labels.update(n for n in ("fit", "rotation", "view_box") if v[n])
    return sorted(labels)


def compare(v, p, q):
    W, H = p.size
    require(p.size == q.size, "sizes %r (Cairo) and %r (Inkscape)", p.size, q.size)
    a, b = inks(p), inks(q)
    whole = [t for t in (a, b)]
    names = [n for n in list(COLOURS)[: len(v["sections"])] + ["frame"]]
    spans = [t[n] for t in whole for n in t]
    if not spans:
        return
    x0, y0, x1, y1 = min(s[0] for s in spans), min(s[1] for s in spans), max(s[2] for s in spans), max(s[3] for s in spans)
    turn = math.radians(v["rotation"] or 0)
    across = (x1 - x0) * abs(math.cos(turn)) + (y1 - y0) * abs(math.sin(turn))
    longest = max(map(len, re.sub(r"~#?\w+\{|\}", "", text_of(v)).split("\n")))
    view = 1 if not v["view_box"] else min(480 / v["view_box"][2], 300 / v["view_box"][3])
    slack = SLACK * max(1, view)
    # positions of glyphs are rounded by one of them
    stretch = 0.03 * min(across, 480) + 0.45 * longest * view
    # the centre of a rotation depends on the width
    # Inkscape leaves the bearings of glyphs out of the widths
    stretch += slack * 0.4 + (0.25 if turn else 0.12) * v["size"] * view * (bool(turn) or v["align"] != "left")
    dx, dy = slack + stretch * max(0.5 * bool(turn), abs(math.cos(turn))), slack + stretch * max(0.5 * bool(turn), abs(math.sin(turn)))
    if v["fit"]:
        # the factor depends on the measured width
        share = 0.1 + 0.5 / longest + 0.5 * longest * view / max(10, across)
        dx, dy = slack + share * (x1 - x0), slack + share * (y1 - y0)
    for n in names:
        s, t = a.get(n), b.get(n)
        if max(u[4] if u else 0 for u in (s, t)) < 12 or any(u and u[2] < 0 and u[4] < 30 for u in (s, t)):
            continue  # too small or pale to have an extent
        # what is cut off at the edges says little
        if not all(dx + 2 <= u[0] and u[2] < W - dx - 2 and dy + 2 <= u[1] and u[3] < H - dy - 2 for u in (s, t) if u):
            continue
        if n in names and framed(v) not in (None, "line") and n == names[framed(v)]:
            continue  # its frame covers parts of it
        require(s and t, "%s is drawn by one backend only: %r (Cairo), %r (Inkscape)", n, s, t)
        require(abs(s[0] - t[0]) <= dx and abs(s[2] - t[2]) <= dx and abs(s[1] - t[1]) <= dy and abs(s[3] - t[3]) <= dy, "%s extends over %r (Cairo), %r (Inkscape); allowed %.1f %.1f", n, s[:4], t[:4], dx, dy)
        if n not in ("frame", framed(v) if framed(v) in (None, "line") else NAMES[framed(v)]) and framed(v) != "line" and max(s[4], t[4]) > 60:
            # thin strokes depend on their places in the grid
            most = (1.33 if max(s[4], t[4]) > 200 else 1.6) * (1 + bool(v["fit"]) * 0.5 / longest) ** 2
            require(1 / most < s[4] / t[4] < most, "amount of %s is %.0f (Cairo), %.0f (Inkscape)", n, s[4], t[4])


# ---------------------------------------------------------------- characters

# without the letters of ligatures
GLYPHS = "abcdeghkmnopqrstuvwxyzABCXYZ0123456789&<>\"'%$#@!?;:,.()[]/\\|+=-_*äéßŁřΩжЯ€→"


@st.composite
def char_item(draw):
    what = draw(st.sampled_from(["text", "text", "code", "plain code", "list", "latin"]))
    v = {"what": what, "show": draw(st.sampled_from([None, None, None, "1", "2", "2+", "1,3"])), "size": draw(st.sampled_from([6, 9, 12])), "align": draw(st.sampled_from(["left", "middle", "right"])),
         "font": draw(st.sampled_from(["sans-serif", "monospace", "serif"])), "bold": draw(st.booleans()), "italic": draw(st.booleans()), "fit": draw(st.booleans()), "rotation": draw(st.sampled_from([None, None, 90, 30]))}
    piece = st.text(alphabet=GLYPHS + "  ", min_size=1, max_size=8)
    if what == "code":
        v["text"] = draw(st.lists(st.sampled_from(["x = 1 & 2", "de g(a): return a[0] < 3", "s = '<b>' + \"&amp;\"", "# a < b & c", "class A(B):", "  pass", "print(x, y)"]), min_size=1, max_size=4))
    elif what == "latin":
        v["text"] = [draw(st.text(alphabet=st.characters(min_codepoint=0x21, max_codepoint=0x17f, blacklist_characters="~{}fF\xad\xa0ﬁ", blacklist_categories=["Cc", "Zs", "Cf", "Lm", "Sk", "Mn"]), min_size=1, max_size=10))]
    else:
        v["text"] = draw(st.lists(piece, min_size=1, max_size=4))
    if what == "text":
        v["style"] = [draw(st.sampled_from([None, None, "tt", "emph", "#n"])) for _ in v["text"]]
    return v


def char_strategy(tier):
    return st.lists(st.lists(char_item(), min_size=1, max_size=4), min_size=1, max_size=4).map(lambda s: {"slides": s})


def char_deck(env, spec, deck=None):
    import elsie
    from elsie.ext import unordered_list

    if deck is None:
        deck = sut.make_deck(env, backend="cairo", width=1600, height=1200)
    for slide_spec in spec["slides"]:
        slide = deck.new_slide()
        for v in slide_spec:
            style = elsie.TextStyle(size=v["size"], font=v["font"], align=v["align"], bold=v["bold"], italic=v["italic"])
            box = slide.box(show=v["show"], width=300 if v["fit"] else None, height=150 if v["fit"] else None)
            if v["what"] in ("code", "plain code"):
                box.code("python" if v["what"] == "code" else "", "\n".join(v["text"]), style=elsie.TextStyle(size=v["size"]))
            elif v["what"] == "list":
                lst = unordered_list(box)
                for t in v["text"]:
                    lst.item(show=v["show"] or "1+").text(t.replace("~", "~~"), style)
            else:
                t = "\n".join("~%s{%s}" % (s, t) if s else t for s, t in zip(v.get("style") or [None] * 9, v["text"]))
                box.text(t, style, scale_to_fit=v["fit"], rotation=v["rotation"])
    return deck


def shown(show, step):
    return show is None or {"1": step == 1, "2": step == 2, "2+": step >= 2, "1,3": step in (1, 3)}[show]


def check_chars(spec, env):
    out = os.path.join(env.root, "chars.pdf")
    if os.path.exists(out):
        os.unlink(out)
    with judged("the document"):
        deck = char_deck(env, spec)
        deck.render(output=out, save_cache=False, prune_cache=False)
        require(os.path.isfile(out), "no document")
    want = judge_chars(spec, out)
    return ["nontrivial"] if len(want) > 1 or len(want[0]) > 20 else []


def judge_chars(spec, out, as_paths=False):
    """Compare the characters of the pages; returns those expected."""
    want = []
    for slide in spec["slides"]:
        n = max({None: 1, "1": 1, "2": 2, "2+": 2, "1,3": 3}[v["show"]] for v in slide)
        for step in range(1, n + 1):
            texts = []
            for v in slide:
                if shown(v["show"], step):
                    texts.extend(("•" if v["what"] == "list" else "") + t for t in v["text"])
            want.append("" if as_paths else "".join("".join(texts).split()))
    r = subprocess.run(["pdftotext", "-raw", "-enc", "UTF-8", out, "-"], capture_output=True, timeout=60)
    require(r.returncode == 0, "pdftotext does not accept the document: %s", r.stderr[-200:])
    pages = r.stdout.decode("utf8").split("\f")
    require(pages.pop() == "" and len(pages) == len(want), "%d pages instead of %d", len(pages), len(want))
    for i, (page, w) in enumerate(zip(pages, want), 1):
        g = "".join(page.replace("\u2800", "").split())
        require(sorted(g) == sorted(w), "characters of page %d: %r instead of %r", i, g, w)
    return want


SUITES = {"shapes": {"strategy": shapes, "check": check_shapes, "share": 0.5}, "texts": {"strategy": text_strategy, "check": check_texts, "share": 0.3},
          "chars": {"strategy": char_strategy, "check": check_chars, "share": 0.2}}
