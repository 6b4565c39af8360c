"""C21: OpenRaster images."""
import base64
import io
import os
import zipfile
from xml.sax.saxutils import quoteattr

from hypothesis import strategies as st

from vlib import decks, geom, sut
from vlib.core import Violation, close, expect_reject, judged, require

ID = "C21"
RULE = ("stacks of nested groups (depth up to 3) and 1-8 layers with 1-5 x 1-5 pixels of 6 modes (transparent, translucent and black ones included), offsets, opacities, visibility, attributes left out, shared sources "
        "and labels, written in 1-3 successive versions to one path and drawn with several scales from one cache; layers with their pixels, groups, opacities and labels in each fragment are compared with the tree; "
        "non-trivial: a nested layer with an offset or opacity on two levels, or a hidden part next to a drawn one")
ASSUMPTIONS = ["coordinates and sizes in stack.xml are integers", "blending modes are not part of the property", "fragment labels only on layers and groups that draw something"]
CASES = {"quick": 6500, "thorough": 50000}

PALETTE = [(0, 0, 0, 0), (255, 0, 0, 255), (0, 0, 0, 255), (10, 200, 30, 128), (90, 80, 70, 0), (255, 255, 255, 255), (1, 2, 3, 1)]
SELECTOR = st.sampled_from(["1", "2", "3", "2+", "1-2", "1,3", "3+"])
NAME = st.one_of(st.sampled_from(["", "Layer", "a & b", "\u010d\u00e1ra", "\"q\" <x>"]), SELECTOR.map(lambda s: "L **" + s), SELECTOR.map(lambda s: "**%s** n" % s))


@st.composite
def attributes(draw, group):
    a = {}
    for name in ("x", "y"):
        v = draw(st.sampled_from([None, None, 0, 1, 7, -3, 12] if group else [None, 0, 1, 4, 9, -2, 15]))
        if v is not None:
            a[name] = str(v)
    v = draw(st.sampled_from([None, None, "1.0", "1", "0.5", "0.25", "0.9", "0"]))
    if v is not None:
        a["opacity"] = v
    v = draw(st.sampled_from([None, "visible", "visible", "visible", "hidden"]))
    if v is not None:
        a["visibility"] = v
    if draw(st.integers(0, 3)):
        a["name"] = draw(NAME)
    if draw(st.integers(0, 3)) == 0:
        a["composite-op"] = "svg:src-over"
    return a


@st.composite
def children(draw, level, budget, sources):
    out = []
    for _ in range(draw(st.integers(1 if level == 0 else 0, 4))):
        if budget[0] <= 0:
            break
        if level < 3 and draw(st.integers(0, 2)) == 0:
            out.append(["stack", draw(attributes(True)), draw(children(level + 1, budget, sources))])
        else:
            budget[0] -= 1
            out.append(["layer", draw(attributes(False)), draw(st.integers(0, sources - 1))])
    return out


@st.composite
def source(draw):
    w, h = draw(st.integers(1, 5)), draw(st.integers(1, 4))
    few = draw(st.sampled_from([list(range(len(PALETTE))), [0, 1], [0], [2], [2, 5], [0, 2, 4], [3, 6, 0]]))
    return {"w": w, "h": h, "pixels": draw(st.lists(st.sampled_from(few), min_size=w * h, max_size=w * h)), "mode": draw(st.sampled_from(["RGBA"] * 4 + ["RGB", "L", "LA", "P", "tRNS", "1"]))}


@st.composite
def image(draw, tier):
    sources = draw(st.lists(source(), min_size=1, max_size=4))
    return {"size": [draw(st.integers(1, 60)), draw(st.integers(1, 60))], "sources": sources, "root": draw(attributes(True)) if draw(st.booleans()) else {},
            "tree": draw(children(0, [8 if tier == "quick" else 16], len(sources))), "newline": draw(st.booleans()), "scale": draw(st.sampled_from([None, None, 0.5, 2, 3])),
            "fragments": draw(st.sampled_from([True, True, True, False]))}


def strategy(tier):
    return st.fixed_dictionaries({"versions": st.lists(image(tier), min_size=1, max_size=3), "mime": st.sampled_from(["ok"] * 12 + ["image/png", ""])})


def encode(s):
    from PIL import Image

    im = Image.new("RGBA", (s["w"], s["h"]))
    im.putdata([PALETTE[i] for i in s["pixels"]])
    out = io.BytesIO()
    if s["mode"] == "tRNS":
        im = Image.new("P", im.size)
        im.putpalette([c for p in PALETTE for c in p[:3]])
        im.putdata(s["pixels"])
        im.save(out, "png", transparency=0)
    else:
        im.convert(s["mode"]).save(out, "png")
    return out.getvalue()


def pixels_of(data):
    from PIL import Image

    im = Image.open(io.BytesIO(data)).convert("RGBA")
    w = im.size[0]
    return {(i % w, i // w): p for i, p in enumerate(im.getdata()) if p[3]}, im.size


def write(path, img, mime):
    def xml(nodes):
        out = []
        for tag, attrs, rest in nodes:
            a = "".join(" %s=%s" % (k, quoteattr(v)) for k, v in attrs.items())
            if tag == "stack":
                out.append("<stack%s>%s</stack>" % (a, xml(rest)))
            else:
                out.append('<layer%s src="data/layer%d.png"/>\n' % (a, rest))
        return "".join(out)

    with zipfile.ZipFile(path, "w") as z:
        z.writestr("mimetype", ("image/openraster" if mime == "ok" else mime) + ("\n" if img["newline"] else ""))
        z.writestr("stack.xml", "<?xml version='1.0' encoding='UTF-8'?>\n" + "<image version='0.0.3' w='%d' h='%d'>%s</image>" % (
            img["size"][0], img["size"][1], xml([["stack", img["root"], img["tree"]]])))
        for i, s in enumerate(img["sources"]):
            z.writestr("data/layer%d.png" % i, encode(s))
        z.writestr("mergedimage.png", encode(img["sources"][0]))


def wanted(img):
    """[opacity, label, children or pixels], from bottom to top; offsets applied to the pixels; what draws nothing left out."""
    data = [pixels_of(encode(s))[0] for s in img["sources"]]

    def walk(node, dx, dy):
        tag, a, rest = node
        opacity = float(a.get("opacity", 1))
        if a.get("visibility", "visible") != "visible" or opacity == 0:
            return None
        dx, dy = dx + int(a.get("x", 0)), dy + int(a.get("y", 0))
        if tag == "layer":
            inner = {(x + dx, y + dy): p for (x, y), p in data[rest].items()}
        else:
            inner = [w for w in (walk(c, dx, dy) for c in reversed(rest)) if w]
        return [opacity, a.get("name", ""), inner] if inner else None

    w = walk(["stack", img["root"], img["tree"]], 0, 0)
    return [w] if w else []


def labelled(nodes):
    """Labels of the nodes that are drawn."""
    out = []
    for _o, name, inner in nodes:
        out.append(name)
        if isinstance(inner, list):
            out += labelled(inner)
    return out


def all_labels(node):
    tag, a, rest = node
    out = [a.get("name", "")]
    if a.get("visibility", "visible") != "visible":
        return []
    if tag == "stack":
        for c in rest:
            out += all_labels(c)
    return out


def count(labels):
    return max([1] + [decks.named(decks.selection(x.split("**")[1], 1)) for x in labels if "**" in x])


def cut(nodes, step):
    """What is left in a fragment."""
    out = []
    for o, name, inner in nodes:
        if step is not None and "**" in name and not decks.selected(decks.selection(name.split("**")[1], 1), step):
            continue
        if isinstance(inner, list):
            inner = cut(inner, step)
        if inner:
            out.append([o, name, inner])
    return out


def drawn(e, at):
    """The same shape read from the drawing; at: the affine map into the image's coordinates."""
    opacity = 1.0
    if e.get("opacity") is not None:
        opacity = sut.fl(e, "opacity")
    if opacity == 0:
        return None
    label = e.get(sut.INKNS + "label") or ""
    if e.get("transform"):
        at = geom.mul(at, geom.parse_transform(e.get("transform")))
    if sut.local(e) == "image":
        href = e.get(sut.XLINK + "href") or e.get("href") or ""
        require(href.startswith("data:image/png;base64,"), "a layer refers to %r", href[:40])
        px, size = pixels_of(base64.b64decode(href.split(",", 1)[1]))
        x, y, w, h = sut.rect_of(e)
        require(close(w, size[0]) and close(h, size[1]), "a layer of %r pixels is drawn with size %r", size, (w, h))
        (ox, oy), (ux, uy), (vx, vy) = [geom.apply(at, p) for p in ((x, y), (x + 1, y), (x, y + 1))]
        require(close(ux - ox, 1) and close(uy, oy) and close(vx, ox) and close(vy - oy, 1), "a layer is not drawn with its own size and direction")
        require(close(ox, round(ox)) and close(oy, round(oy)), "a layer is drawn at %r", (ox, oy))
        inner = {(round(ox) + i, round(oy) + j): p for (i, j), p in px.items()}
    elif sut.local(e) == "g":
        inner = [d for d in (drawn(c, at) for c in e if isinstance(c.tag, str)) if d]
    else:
        raise Violation("<%s> in a converted image" % sut.local(e))
    return [opacity, label, inner] if inner else None


def nontrivial(img):
    found = [False]

    def walk(node, moved, level):
        tag, a, rest = node
        hidden = a.get("visibility", "visible") != "visible" or a.get("opacity") == "0"
        own = any(a.get(n, "0") != "0" for n in "xy") or a.get("opacity", "1") not in ("1", "1.0")
        if tag == "layer":
            if own and moved:
                found[0] = True
        else:
            states = [walk(c, moved or own, level + 1) for c in rest]
            if True in states and False in states:
                found[0] = True
        return hidden

    walk(["stack", img["root"], img["tree"]], False, 0)
    return found[0]


def tree_diff(a, b):
    def short(n):
        return [[o, l, short(i) if isinstance(i, list) else sorted(i.items())[:4]] for o, l, i in n]

    return "%r, expected %r" % (short(a), short(b))


def check(spec, env):
    labels = set()
    cache = sut.case_dir(env)
    path = os.path.join(env.root, "image.ora")
    for turn, img in enumerate(spec["versions"]):
        write(path, img, spec["mime"])
        if spec["mime"] != "ok":
            deck = sut.make_deck(env, cache_dir=cache)
            expect_reject("an ORA file of type %r" % spec["mime"], lambda: deck.new_slide().image(path))
            return ["wrong type"]
        want = wanted(img)
        with judged("drawing version %d of an ORA image" % (turn + 1)):
            deck = sut.make_deck(env, cache_dir=cache, width=500, height=400)
            slide = deck.new_slide()
            box = slide.box(x=20, y=30)
            box.rect(bg_color=sut.colour(1))
            box.image(path, scale=img["scale"], fragments=img["fragments"])
            units = sut.render_units(deck)
            low = count(labelled(want)) if img["fragments"] else 1
            high = max(low, count(all_labels(["stack", img["root"], img["tree"]]))) if img["fragments"] else 1
            require(low <= len(units) <= high, "%d pages, expected %d", len(units), low)
            factor = img["scale"] or 1
            for step, unit in enumerate(units, 1):
                root = sut.parse_svg(unit.get_svg())
                es = [e for e in root if isinstance(e.tag, str)]
                require(len(es) == 2, "%d elements drawn", len(es))
                x, y, w, h = sut.rect_of(es[0])
                require(close(x, 20) and close(y, 30), "box at %r", (x, y))
                require(close(w, img["size"][0] * factor) and close(h, img["size"][1] * factor), "size %r of an image of size %r with scale %r", (w, h), img["size"], img["scale"])
                at = geom.parse_transform(es[1].get("transform") or "")
                for p, q in (((0, 0), (x, y)), ((img["size"][0], img["size"][1]), (x + w, y + h))):
                    r = geom.apply(at, p)
                    require(close(r[0], q[0]) and close(r[1], q[1]), "point %r of the image is drawn at %r, expected %r", p, r, q)
                (svg,) = list(es[1])
                got = [d for d in (drawn(e, geom.parse_transform("")) for e in svg if isinstance(e.tag, str)) if d]
                model = cut(want, step if img["fragments"] else None)
                require(same(got, model), "fragment %d: %s", step, tree_diff(got, model))
        if nontrivial(img):
            labels.add("nontrivial")
        labels.add("%d layers" % min(4, sum(1 for _ in leaves(want))))
        labels |= {"mode " + s["mode"] for s in img["sources"]}
        if len(units) > 1:
            labels.add("fragments")
        if turn:
            labels.add("new version")
    return sorted(labels)


def leaves(nodes):
    for _o, _n, inner in nodes:
        if isinstance(inner, list):
            yield from leaves(inner)
        else:
            yield inner


def same(a, b):
    if len(a) != len(b):
        return False
    for (o, n, i), (p, m, j) in zip(a, b):
        if not close(o, p, 1e-3) or n != m or type(i) is not type(j):
            return False
        if isinstance(i, list):
            if not same(i, j):
                return False
        elif i != j:
            return False
    return True
