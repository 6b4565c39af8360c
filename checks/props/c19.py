"""C19: placement and content of images."""
import base64
import io

from hypothesis import strategies as st

from vlib import decks, geom, sut
from vlib.core import Skip, judged, require, require_close

ID = "C19"
RULE = ("1-3 bitmap (PNG in 4 modes, JPEG; file name, bytes or stream) or SVG images (px, mm, cm, pt, in, pc or no unit, any content) of any size with any scale and rotation in boxes with no, one or both dimensions, "
        "fill, ratios, zero sizes, paddings and siblings; the area of the box is read from a mark, places, rotations, requested sizes and embedded data are compared; "
        "non-trivial: an image whose aspect ratio differs from its box's, or a requested size")
ASSUMPTIONS = ["names of ids may change as long as references follow", "the area of the box that has no padding and no other content is as requested by the image", "pictures are not larger than 300 pixels"]
CASES = {"quick": 7500, "thorough": 60000}
UNITS = {"": 1.0, "px": 1.0, "mm": 9.6 / 2.54, "cm": 96 / 2.54, "pt": 96 / 72, "in": 96.0, "pc": 16.0}
CLOSE = 1e-5  # of a size; the conversions in elsie have six digits


@st.composite
def image(draw):
    what = draw(st.sampled_from(["png", "png", "jpeg", "svg", "svg"]))
    v = {"what": what, "scale": draw(st.one_of(st.none(), st.none(), st.sampled_from([0.1, 0.5, 1, 2.5]))),
         "rotation": draw(st.one_of(st.none(), st.none(), st.sampled_from([0, 90, 180, -30]), st.integers(-400, 400)))}
    if what == "svg":
        v["w"] = draw(st.one_of(st.integers(1, 300), st.floats(0.5, 90, width=16).map(lambda q: round(q, 3))))
        v["h"] = draw(st.one_of(st.integers(1, 300), st.floats(0.5, 90, width=16).map(lambda q: round(q, 3))))
        v["units"] = [draw(st.sampled_from(sorted(UNITS))), draw(st.sampled_from(sorted(UNITS)))]
        v["content"] = draw(st.integers(0, len(CONTENT) - 1))
        v["view"] = draw(st.booleans())
    else:
        v["w"], v["h"] = draw(st.one_of(st.tuples(st.integers(1, 300), st.integers(1, 300)), st.tuples(st.integers(1, 5), st.integers(1, 5))))
        v["mode"] = draw(st.sampled_from(["RGB", "RGBA", "L", "P"])) if what == "png" else "RGB"
        v["source"] = draw(st.sampled_from(["file", "file", "bytes", "stream"]))
        v["ext"] = draw(st.sampled_from([".jpg", ".jpeg"]))
    return v


SIZE = st.one_of(st.none(), st.none(), st.integers(0, 400), st.integers(5, 90).map(lambda q: "%d%%" % q), st.just("fill"))


@st.composite
def box(draw):
    b = {"args": {}, "pads": draw(st.one_of(st.none(), st.none(), st.lists(st.integers(0, 20), min_size=4, max_size=4))), "sibling": draw(st.one_of(st.none(), st.none(), st.none(), st.tuples(st.integers(0, 160), st.integers(1, 160)).map(list))), "images": draw(st.lists(image(), min_size=1, max_size=2))}
    for name in ("width", "height"):
        v = draw(SIZE)
        if v is not None:
            b["args"][name] = v
    for name in ("x", "y"):
        if draw(st.integers(0, 3)) == 0:
            b["args"][name] = draw(st.integers(0, 200))
    if draw(st.booleans()):
        b["args"]["horizontal"] = True
    b["again"] = draw(st.booleans())
    return b


@st.composite
def strategy_(draw, tier):
    return {"boxes": draw(st.lists(box(), min_size=1, max_size=2)), "horizontal": draw(st.booleans())}


def strategy(tier):
    return strategy_(tier)


CONTENT = [
    "<rect x='1' width='3' height='2' style='fill:red'/>",
    "<g transform='scale(2)'><!-- note --><text x='1'>a &lt;b&gt; <tspan>c</tspan> d</text></g>",
    "<defs><linearGradient id='g'><stop offset='0'/></linearGradient></defs><rect width='2' height='2' fill='url(#g)'/><use xlink:href='#g' xmlns:xlink='http://www.w3.org/1999/xlink'/>",
    "<style>rect { fill: blue }</style><foreign xmlns='http://example.org/x' a='1'>t</foreign>é&#8364;",
    "<g xmlns:inkscape='http://www.inkscape.org/namespaces/inkscape' inkscape:label='layer 1' id='x1'><path d='M0,0 L1,1z'/></g>",
    "<style>#x1 { fill: url(#g) } #x, .x1 { stroke: #abc }</style><defs><radialGradient id='g'/><clipPath id='x'><rect id='abd' width='1' height='1'/></clipPath></defs>"
    "<g id='x1' clip-path='url(#x)' style='filter:url( #g );stroke:#abc'><use href='#abd'/><text>#x1 url(#g)</text></g>",
    "<marker id='m-2'/><marker id='m'/><marker id='x1-2'/><path id='g' d='M0 0L1 1' marker-end='url(#m)' marker-start=\"url('#m-2')\" style='marker-mid:url(#x1-2)'/><title id='t'>#m</title>",
    "",
]


def svg_source(v):
    view = " viewBox='0 0 10 20'" if v["view"] else ""
    return "<svg xmlns='http://www.w3.org/2000/svg' width='%s%s' height='%s%s'%s>%s</svg>" % (v["w"], v["units"][0], v["h"], v["units"][1], view, CONTENT[v["content"]])


def bitmap(v, i):
    from PIL import Image

    im = Image.new(v["mode"], (v["w"], v["h"]), {"RGB": (i, 100, 3), "RGBA": (i, 50, 60, 128), "L": 7 + i, "P": i}[v["mode"]])
    f = io.BytesIO()
    im.save(f, "PNG" if v["what"] == "png" else "JPEG")
    return f.getvalue()


def natural(v):
    if v["what"] == "svg":
        return v["w"] * UNITS[v["units"][0]], v["h"] * UNITS[v["units"][1]]
    return float(v["w"]), float(v["h"])


def add(env, o, v, i):
    kw = {}
    if v["scale"] is not None:
        kw["scale"] = v["scale"]
    if v["rotation"] is not None:
        kw["rotation"] = v["rotation"]
    if v["what"] == "svg":
        o.image(decks.asset(env, ".svg", svg_source(v)), **kw)
        return svg_source(v)
    data = bitmap(v, i)
    if v["source"] == "file":
        o.image(decks.asset(env, ".png" if v["what"] == "png" else v["ext"], data), **kw)
    elif v["source"] == "bytes":
        o.image(data, image_type=v["what"], **kw)
    else:
        o.image(io.BytesIO(data), image_type=v["what"], **kw)
    return data


def check(spec, env):
    labels = set()
    with judged("images"):
        deck = sut.make_deck(env, width=800, height=600)
        s = deck.new_slide()
        row = s.box(width=700, height=500, horizontal=spec["horizontal"])
        plan = []
        n = 0
        for bi, b in enumerate(spec["boxes"]):
            args = dict(b["args"])
            if b["pads"]:
                args.update(zip(("p_left", "p_right", "p_top", "p_bottom"), b["pads"]))
            bx = row.box(**args)
            bx.rect(bg_color=sut.colour(bi))
            if b["sibling"]:
                bx.box(width=b["sibling"][0], height=b["sibling"][1])
            for v in b["images"]:
                plan.append((bi, v, add(env, bx, v, n)))
                n += 1
            if b["again"]:
                # the same picture a second time, in a box of its own
                v = b["images"][0]
                other = s.box(x=600, y=400, width=120, height=90)
                other.rect(bg_color=sut.colour(100 + bi))
                plan.append((100 + bi, v, add(env, other, v, n - len(b["images"]))))
        (root,) = sut.svgs(deck)
        rects = {c: r[0] for c, r in sut.colour_rects(root).items()}
        els = [e for e in root if sut.local(e) in ("image", "g")]
        require(len(els) == len(plan), "%d images drawn, expected %d", len(els), len(plan))
        # images of the row come first, those of boxes outside of it follow in their order
        plan = [p for p in plan if p[0] < 100] + [p for p in plan if p[0] >= 100]
        seen = []
        for e, (bi, v, data) in zip(els, plan):
            x, y, w, h = rects[sut.colour(bi)]
            iw, ih = natural(v)
            if any(0 < abs(q) < 1e-9 for q in (w, h)):
                raise Skip("a rounding error decides whether there is any space")
            name = "%s image %rx%r, scale %r, in %r" % (v["what"], iw, ih, v["scale"], (x, y, w, h))
            if v["scale"] is not None:
                k = v["scale"]
                labels.add("scaled")
            elif w > 0 and h > 0:
                k = min(w / iw, h / ih)
                labels.add("fits")
                if abs(w / iw - h / ih) > 0.01:
                    labels.add("nontrivial")
            elif w > 0 or h > 0:
                k = max(w / iw, h / ih)
                labels.add("one dimension")
            else:
                k = 0.0
                labels.add("no dimension")
            left, top = x + (w - iw * k) / 2, y + (h - ih * k) / 2
            turn = geom.rotate(v["rotation"] or 0, x + w / 2, y + h / 2)
            want = [geom.apply(turn, p) for p in ((left, top), (left + iw * k, top), (left, top + ih * k))]
            m = geom.parse_transform(e.get("transform"))
            if v["what"] == "svg":
                require(sut.local(e) == "g" and len(e) == 1, "%s is drawn as <%s>", name, sut.local(e))
                require(decks.resolved(e[0]) == decks.resolved(sut.parse_svg(data)), "content of %s changed", name)
                for other, ids in seen:
                    if other != data:
                        require(not ids.intersection(decks.ids_of(e[0])), "%s has ids in common with another image", name)
                        labels.add("two SVG images")
                seen.append((data, set(decks.ids_of(e[0]))))
                got = [geom.apply(m, p) for p in ((0, 0), (iw, 0), (0, ih))]
            else:
                ax, ay, aw, ah = sut.rect_of(e)
                got = [geom.apply(m, p) for p in ((ax, ay), (ax + aw, ay), (ax, ay + ah))]
                href = e.get(sut.XLINK + "href") or e.get("href")
                head, _, payload = href.partition(",")
                require(head == "data:image/%s;base64" % v["what"], "%s is embedded as %r", name, head)
                require(base64.b64decode(payload) == data, "data of %s changed", name)
            for g, q in zip(got, want):
                tol = CLOSE * (1 + max(w, h, iw * k, ih * k))
                require_close(g[0], q[0], "x of a corner of %s" % name, tol)
                require_close(g[1], q[1], "y of a corner of %s" % name, tol)
        # the sizes of boxes
        for bi, b in enumerate(spec["boxes"]):
            a = b["args"]
            if len(b["images"]) != 1 or any(a.get(n, 0) == 0 and n in a for n in ("width", "height")):
                continue
            v = b["images"][0]
            iw, ih = natural(v)
            k = v["scale"] or 1
            x, y, w, h = rects[sut.colour(bi)]
            l, r, t, d = b["pads"] or (0, 0, 0, 0)
            # content that is there before the image
            cw, ch = b["sibling"] or (0, 0)
            if b["sibling"]:
                labels.add("image after another content")
            tol = CLOSE * (1 + max(w, h))
            if "width" not in a and "height" not in a:
                require_close(w, max(iw * k, cw), "width of a box with an image of natural width %r, scale %r, and a content of width %r" % (iw, v["scale"], cw), tol)
                require_close(h, max(ih * k, ch), "height of a box with an image of natural height %r, scale %r, and a content of height %r" % (ih, v["scale"], ch), tol)
                labels.update(("natural size", "nontrivial"))
            elif isinstance(a.get("width"), int) and "height" not in a and a["width"] > l + r:
                given = max(a["width"] - l - r, cw)
                require_close(w, max(given, ch * iw / ih), "width of a box of width %r with an image of %rx%r and a content of %rx%r" % (a["width"], iw, ih, cw, ch), tol)
                require_close(h, max(given * ih / iw, ch), "height of a box of width %r with an image of %rx%r and a content of %rx%r" % (a["width"], iw, ih, cw, ch), tol)
                labels.update(("height from ratio", "nontrivial"))
            elif isinstance(a.get("height"), int) and "width" not in a and a["height"] > t + d:
                given = max(a["height"] - t - d, ch)
                require_close(h, max(given, cw * ih / iw), "height of a box of height %r with an image of %rx%r and a content of %rx%r" % (a["height"], iw, ih, cw, ch), tol)
                require_close(w, max(given * iw / ih, cw), "width of a box of height %r with an image of %rx%r and a content of %rx%r" % (a["height"], iw, ih, cw, ch), tol)
                labels.update(("width from ratio", "nontrivial"))
    for b in spec["boxes"]:
        for v in b["images"]:
            labels.add(v["what"])
            if v["rotation"]:
                labels.add("rotated")
    return sorted(labels)
