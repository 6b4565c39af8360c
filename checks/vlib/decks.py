"""Programs over elsie's drawing features: generator, builder and a model of what is painted where.

A program is {"wh", "bg", "slides": [{"bg", "view_box", "ops": [...]}]}.  Operation k of a slide creates
object k+1 (object 0 is the slide's root box):

  {"t": "box", "p": parent, "kind", "args", "rel": [0 above|1 below, which child] or None}
  {"t": "item", "p": parent, "what", "v": {...}}

The parent is an object number (an item stands for its box).  Object k of slide s is marked by its own colour.
"""
import base64
import hashlib
import io
import os
import re
import zlib

from hypothesis import strategies as st

from . import sut

PER_SLIDE = 200
SHAPES = ("rect", "ellipse", "polygon", "line", "path")
TEXTS = ("text", "code")
IMAGES = ("png", "svg")
ALL = SHAPES + TEXTS + IMAGES


def mark(s, k):
    return s * PER_SLIDE + k


def bg_mark(s):
    return s * PER_SLIDE + PER_SLIDE - 1


# ---------------------------------------------------------------- generator

SELECT = st.one_of(
    st.integers(1, 4).map(str),
    st.integers(1, 5),
    st.integers(1, 4).map(lambda v: "%d+" % v),
    st.sampled_from(["next", "last", "next+", "last+"]),
    st.tuples(st.integers(1, 4), st.integers(0, 2)).map(lambda t: "%d-%d" % (t[0], t[0] + t[1])),
    st.lists(st.integers(1, 5), min_size=2, max_size=3).map(lambda v: ",".join(map(str, v))),
    st.tuples(st.integers(1, 3), st.integers(3, 5)).map(lambda t: "%d,%d+" % t),
    st.tuples(st.integers(1, 2), st.integers(0, 1), st.integers(4, 6)).map(lambda t: "%d-%d, %d" % (t[0], t[0] + t[1], t[2])),
    st.tuples(st.sampled_from(["1", "2", "4", "5", "1-4", "3-5", "next", "last"]), st.sampled_from(["next", "last", "next+", "last+"])).map(",".join),
)
COORD = st.one_of(st.integers(-20, 120), st.integers(0, 100).map(lambda v: "%d%%" % v))
POINT = st.tuples(COORD, COORD).map(list)
ANGLE = st.one_of(st.none(), st.none(), st.integers(-180, 360))
WORDS = st.sampled_from(["abc", "Hello", "a b", "one\ntwo", "x\n\ny", "~emph{it} x", "~tt{mono ~alert{red} z}", "<&>\"'", "~#tag{sub} rest"])


@st.composite
def item_values(draw, what, fit=False):
    v = {}
    if what in ("rect", "ellipse"):
        v = {"edge": draw(st.booleans()), "rotation": draw(ANGLE), "sw": draw(st.sampled_from([1, 2, 3.5])), "dash": draw(st.sampled_from([None, "4 2"]))}
        if what == "rect":
            v["rx"] = draw(st.sampled_from([None, None, 3, 10]))
    elif what == "polygon":
        v = {"points": draw(st.lists(POINT, min_size=3, max_size=5)), "edge": draw(st.booleans()), "rotation": draw(ANGLE)}
    elif what == "line":
        v = {"points": draw(st.lists(POINT, min_size=2, max_size=4)), "sw": draw(st.sampled_from([1, 2, 5])),
             "arrows": draw(st.sampled_from([0, 0, 0, 1, 2, 3])), "thick": draw(st.sampled_from([None, 2]))}
    elif what == "path":
        v = {"points": draw(st.lists(POINT, min_size=7, max_size=7)), "form": draw(st.integers(0, 3)), "arrow": draw(st.booleans())}
    elif what == "text":
        v = {"text": draw(WORDS), "size": draw(st.sampled_from([8, 14, 20])), "align": draw(st.sampled_from(["left", "middle", "right"])),
             "fit": fit and draw(st.sampled_from([False, False, False, True])), "rotation": draw(ANGLE)}
    elif what == "code":
        v = {"text": draw(st.sampled_from(["x = 1", "def f(a):\n    return a + 1\n", "\n# c\nprint('x')\n"])), "language": draw(st.sampled_from(["python", "python", "", "c"])),
             "numbers": draw(st.booleans())}
    elif what in IMAGES:
        v = {"w": draw(st.integers(1, 60)), "h": draw(st.integers(1, 60)), "scale": draw(st.sampled_from([None, None, 0.5, 1, 2])), "rotation": draw(ANGLE)}
        if what == "svg":
            v["inner"] = draw(st.integers(0, 2))
            v["begin"] = draw(st.sampled_from([1, 1, 1, 2, 3, 4]))
            v["pick"] = draw(st.one_of(st.none(), st.none(), st.none(), st.lists(st.sampled_from([1, 2, None]), min_size=1, max_size=4)))
    return v


@st.composite
def slides_ops(draw, kinds, max_ops, fit=False, show=0.0, rel=0.0, z=0.0, prepend=0.0, via=True, pads=0.1, positions=0.3, names=False, item_share=0.5, box_items=True):
    n = draw(st.integers(1, max_ops))
    ops = []
    coin = st.integers(0, 99)
    shape = draw(st.sampled_from(["any", "recent", "root"]))
    boxes = [0]
    for i in range(n):
        cand = draw(st.integers(0, i)) if shape != "recent" else draw(st.integers(max(0, i - 2), i))
        if shape == "root" and draw(coin) < 60:
            cand = 0
        if not via:
            cand = boxes[cand % len(boxes)]
        if draw(coin) < item_share * 100:
            what = draw(st.sampled_from(kinds))
            ops.append({"t": "item", "p": cand, "what": what, "v": draw(item_values(what, fit))})
            continue
        args = {}
        for name in ("width", "height"):
            v = draw(st.one_of(st.none(), st.integers(5, 200), st.integers(10, 100).map(lambda q: "%d%%" % q), st.just("fill")))
            if v is not None:
                args[name] = v
        if draw(st.booleans()):
            args["horizontal"] = True
        for name in ("x", "y"):
            if draw(coin) < positions * 100:
                args[name] = draw(st.one_of(st.integers(0, 150), st.integers(0, 90).map(lambda q: "%d%%" % q), st.integers(0, 100).map(lambda q: "[%d%%]" % q)))
        if draw(coin) < pads * 100:
            args[draw(st.sampled_from(["padding", "p_left", "p_y"]))] = draw(st.integers(0, 20))
        if draw(coin) < show * 100:
            args["show"] = draw(SELECT)
        if draw(coin) < z * 100:
            args["z_level"] = draw(st.sampled_from([0, 0, 0, 1, 2, 3, -1, -2, -3]))
        if draw(coin) < prepend * 100:
            args["prepend"] = True
        if names:
            nm = draw(st.sampled_from([None, None, "n1", "a<b", "x y"]))
            if nm:
                args["name"] = nm
        op = {"t": "box", "p": cand, "kind": draw(st.sampled_from(["box"] * 5 + ["fbox", "sbox", "overlay"])), "args": args, "rel": None}
        if draw(coin) < rel * 100:
            op["rel"] = [draw(st.integers(0, 1)), draw(st.integers(0, 7))]
        ops.append(op)
        boxes.append(i + 1)
    return ops


@st.composite
def programs(draw, kinds=ALL, fit=False, max_slides=3, max_ops=10, min_slides=1, bg=0.3, view_box=0.0, **kw):
    coin = st.integers(0, 99)
    slides = []
    for _ in range(draw(st.integers(min_slides, max_slides))):
        s = {"bg": draw(coin) < bg * 100, "view_box": None, "ops": draw(slides_ops(kinds=kinds, max_ops=max_ops, fit=fit, **kw))}
        if draw(coin) < view_box * 100:
            s["view_box"] = [draw(st.integers(-50, 50)), draw(st.integers(-50, 50)), draw(st.integers(50, 800)), draw(st.integers(50, 800))]
        if draw(coin) < 15:
            # The deck is rendered when the slide is not finished
            s["rendered"] = [draw(st.integers(0, len(s["ops"]) - 1))]
        slides.append(s)
    return {"wh": draw(st.sampled_from([[640, 480], [300, 200], [1024, 768]])), "bg": draw(coin) < bg * 100, "slides": slides}


# ---------------------------------------------------------------- files

def png_bytes(w, h, rgb):
    raw = (b"\0" + bytes(rgb) * w) * h

    def chunk(t, c):
        return len(c).to_bytes(4, "big") + t + c + (zlib.crc32(t + c) & 0xFFFFFFFF).to_bytes(4, "big")

    ihdr = w.to_bytes(4, "big") + h.to_bytes(4, "big") + bytes([8, 2, 0, 0, 0])
    return b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", ihdr) + chunk(b"IDAT", zlib.compress(raw)) + chunk(b"IEND", b"")


def rgb_of(colour):
    return tuple(int(colour[i:i + 2], 16) for i in (1, 3, 5))


def asset(env, name, data):
    """A file whose path depends on its content only; kept for the life of the worker."""
    if isinstance(data, str):
        data = data.encode()
    d = os.path.join(env.root, "assets", hashlib.sha1(data).hexdigest()[:20])
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "asset" + name)  # only the directory differs
    if not os.path.isfile(path):
        with open(path, "wb") as f:
            f.write(data)
    return path


def svg_file(w, h, colour, inner):
    body = "<rect x='0' y='0' width='%d' height='%d' style='fill:%s'/>" % (w, h, colour)
    if inner:
        body = "<g transform='translate(1,0)'>%s</g>" % body
    if inner == 2:
        body += "<!-- c --><path d='M0,0 L1,1' style='stroke:%s'/>" % colour
    return "<svg xmlns='http://www.w3.org/2000/svg' width='%d' height='%d'>%s</svg>" % (w, h, body)


# ---------------------------------------------------------------- building

def add_item(env, owner, what, v, colour, text_kw=None):
    import elsie

    if what == "rect":
        return owner.rect(color=colour if v["edge"] else None, bg_color=None if v["edge"] else colour, stroke_width=v["sw"], stroke_dasharray=v["dash"],
                          rx=v.get("rx"), rotation=v["rotation"])
    if what == "ellipse":
        return owner.ellipse(color=colour if v["edge"] else None, bg_color=None if v["edge"] else colour, stroke_width=v["sw"], stroke_dasharray=v["dash"],
                             rotation=v["rotation"])
    if what == "polygon":
        return owner.polygon([tuple(p) for p in v["points"]], color=colour if v["edge"] else None, bg_color=None if v["edge"] else colour, rotation=v["rotation"])
    if what == "line":
        arrow = elsie.Arrow(8, stroke_width=v["thick"])
        pts = [tuple(p) for p in v["points"]]
        # coincident points have no direction
        a = v["arrows"] if all(p[0] != q[0] for p, q in zip(pts, pts[1:])) and all(isinstance(c, int) for p in pts for c in p) else 0
        return owner.line(pts, color=colour, stroke_width=v["sw"], start_arrow=arrow if a & 1 else None, end_arrow=arrow if a & 2 else None)
    if what == "path":
        p = [tuple(q) for q in v["points"]]
        cmds = [("M", p[0])] + [
            [("L", p[1])], [("C", p[1], p[2], p[3])], [("L", p[1]), ("Q", p[2], p[3])], [("C", p[1], p[2], p[3]), ("S", p[4], p[5])]
        ][v["form"]]
        end = {1: (2, 3), 2: (2, 3), 3: (4, 5)}.get(v["form"])
        arrow = None
        if v["arrow"] and end is not None:
            a, b = p[end[0]], p[end[1]]
            if all(isinstance(c, int) for c in a + b) and a != b:
                arrow = elsie.Arrow(9)
        return owner.path(cmds, color=colour, end_arrow=arrow)
    if what == "text":
        style = elsie.TextStyle(color=colour, size=v["size"], align=v["align"])
        return owner.text(v["text"], style, scale_to_fit=v["fit"], rotation=v["rotation"])
    if what == "code":
        style = elsie.TextStyle(font="monospace", color=colour, size=12, align="left")
        return owner.code(v["language"], v["text"], style=style, line_numbers=v["numbers"])
    if what == "png":
        path = asset(env, ".png", png_bytes(v["w"], v["h"], rgb_of(colour)))
        return owner.image(path, scale=v["scale"], rotation=v["rotation"])
    if what == "svg":
        path = asset(env, ".svg", svg_file(v["w"], v["h"], colour, v["inner"]))
        return owner.image(path, scale=v["scale"], rotation=v["rotation"], show_begin=v.get("begin", 1), select_fragments=v.get("pick"))
    raise AssertionError(what)


def owner_index(ops, k):
    """Number of the box that object k is or belongs to."""
    while k and ops[k - 1]["t"] == "item":
        k = ops[k - 1]["p"]
    return k


def build_slide(env, deck, prog, s, new_slide=None):
    """Build slide s; returns [objects]."""
    conf = prog["slides"][s]
    kw = {}
    if conf["bg"]:
        kw["bg_color"] = sut.colour(bg_mark(s))
    if conf.get("view_box"):
        kw["view_box"] = tuple(conf["view_box"])
    if conf.get("debug"):
        kw["debug_boxes"] = True
    root = (new_slide or deck.new_slide)(**kw)
    objs = [root]
    kids = {0: []}
    for i, op in enumerate(conf["ops"]):
        k = i + 1
        parent = objs[op["p"]]
        own = owner_index(conf["ops"], op["p"])
        if op["t"] == "box":
            args = dict(op["args"])
            if op["rel"] and kids[own]:
                args["above" if op["rel"][0] == 0 else "below"] = objs[kids[own][op["rel"][1] % len(kids[own])]]
            objs.append(getattr(parent, op["kind"])(**args))
            kids[k] = []
        else:
            objs.append(add_item(env, parent, op["what"], op["v"], sut.colour(mark(s, k))))
        kids[own].append(k)
        if i in conf.get("rendered", ()):
            render_unfinished(deck)
    return objs


def render_unfinished(deck):
    from elsie.render.backends.svg.backend import InkscapeBackend

    if isinstance(deck.backend, InkscapeBackend):
        deck.render(output=None, return_units=True, save_cache=False, prune_cache=False)


def deck_kwargs(prog):
    kw = dict(width=prog["wh"][0], height=prog["wh"][1])
    if prog["bg"]:
        kw["bg_color"] = sut.colour(deck_bg())
    return kw


def deck_bg():
    return 0xF000


def build(env, prog, cache_dir=None, backend=None, **kw):
    deck = sut.make_deck(env, cache_dir=cache_dir, backend=backend, **dict(deck_kwargs(prog), **kw))
    for s in range(len(prog["slides"])):
        build_slide(env, deck, prog, s)
    return deck


# ---------------------------------------------------------------- the model

class Obj:
    def __init__(self, k, op, parent):
        self.k = k
        self.op = op
        self.parent = parent
        self.children = []  # paint order
        self.z = 0
        self.select = None  # None or (set, open start)
        self.is_box = op is None or op["t"] == "box"


def selection(show, current):
    """Meaning of a selector made by SELECT."""
    if show is None:
        return (set(), 1)
    if isinstance(show, int):
        return ({show}, None)
    out, start = set(), None
    for part in show.split(","):
        part = part.strip()
        part = part.replace("next", str(current + 1)).replace("last", str(current))
        if part.endswith("+"):
            start = int(part[:-1])
        elif "-" in part:
            a, b = part.split("-")
            out |= set(range(int(a), int(b) + 1))
        else:
            out.add(int(part))
    return out, start


def named(sel):
    return max(list(sel[0]) + ([sel[1]] if sel[1] is not None else []) + [1])


def selected(sel, step):
    return step in sel[0] or (sel[1] is not None and step >= sel[1])


def v_begin(v):
    return v.get("begin", 1)


def item_shown(op, step):
    """An image may begin later and be shown in some fragments only; it has no fragments of its own."""
    if op["what"] != "svg" or step < v_begin(op["v"]):
        return op["what"] != "svg"
    pick = op["v"].get("pick")
    at = step - v_begin(op["v"])
    return not pick or at < len(pick) and pick[at] is not None


class SlideModel:
    def __init__(self, prog, s):
        conf = prog["slides"][s]
        self.s = s
        self.current = 1
        root = Obj(0, None, None)
        root.select = (set(), 1)
        self.objs = [root]
        self.bg = bg_mark(s) if conf["bg"] else deck_bg() if prog["bg"] else None
        kids = {0: []}
        for i, op in enumerate(conf["ops"]):
            k = i + 1
            own = owner_index(conf["ops"], op["p"])
            parent = self.objs[own]
            o = Obj(k, op, parent)
            at = len(parent.children)
            if o.is_box:
                o.z = op["args"].get("z_level", parent.z)
                o.select = selection(op["args"].get("show"), self.current)
                self.current = max(self.current, named(o.select))
                kids[k] = []
                if op["rel"] and kids[own]:
                    ref = self.objs[kids[own][op["rel"][1] % len(kids[own])]]
                    at = parent.children.index(ref) + (1 if op["rel"][0] == 0 else 0)
                elif op["args"].get("prepend"):
                    at = 0
            else:
                o.z = parent.z
                if op["what"] == "svg":
                    self.current = max(self.current, v_begin(op["v"]) - 1 + len(op["v"].get("pick") or [1]))
            parent.children.insert(at, o)
            kids[own].append(k)
            self.objs.append(o)

    @property
    def steps(self):
        return self.current

    def painted(self, step):
        """Numbers of the items painted in a fragment, in painting order."""
        out = []

        def walk(o):
            if not selected(o.select, step):
                return
            for c in o.children:
                if c.is_box:
                    walk(c)
                elif item_shown(c.op, step):
                    out.append(c)

        walk(self.objs[0])
        out.sort(key=lambda c: c.z)
        return [c.k for c in out]

    def painted_marks(self, step):
        out = [mark(self.s, k) for k in self.painted(step)]
        return ([self.bg] if self.bg is not None else []) + out


COLOUR = re.compile(r"#(10[0-9a-f]{4})\b")
IMG = re.compile(r"^data:[^;]+;base64,(.*)$", re.S)


def mark_of(e):
    """Mark of a top-level element of a drawing, None if it has none. Several marks in one element are an error."""
    found = set()
    for d in e.iter():
        if not isinstance(d.tag, str):
            continue
        for v in d.attrib.values():
            if len(v) < 4000 and v.startswith("data:"):
                m = IMG.match(v)
                if m:
                    found.add(image_mark(m.group(1)))
                continue
            for c in COLOUR.findall(v):
                found.add(int(c, 16) - 0x100000)
    found.discard(None)
    if not found:
        return None
    if len(found) > 1:
        return ("mixed", sorted(found))
    return found.pop()


def image_mark(data):
    try:
        from PIL import Image

        im = Image.open(io.BytesIO(base64.b64decode(data))).convert("RGB")
        r, g, b = im.getpixel((0, 0))
    except Exception:
        return None
    v = (r << 16) + (g << 8) + b
    return v - 0x100000


def mark_sequence(root):
    """Marks of the drawing's elements in document order, repetitions in a row collapsed."""
    out = []
    for e in root:
        if not isinstance(e.tag, str):
            continue
        m = mark_of(e)
        if not out or out[-1] != m:
            out.append(m)
    return out


def collapse(seq):
    out = []
    for m in seq:
        if not out or out[-1] != m:
            out.append(m)
    return out


def canonical(e):
    """An element as a comparable value."""
    return (
        e.tag, tuple(sorted(e.attrib.items())), e.text or "",
        tuple((canonical(c), c.tail or "") for c in e if isinstance(c.tag, str)),
    )


def ids_of(e):
    return [c.get("id") for c in e.iter() if c.get("id")]


def resolved(e):
    """An element as a comparable value that does not depend on the names of its ids."""
    import re

    names = {}
    for n in ids_of(e):
        names.setdefault(n, "@%d" % len(names))

    def value(k, v):
        if k == "id":
            return names[v]
        return re.sub(r"#([^\s#()'\",;]+)", lambda m: names.get(m.group(1), m.group()), v)

    def walk(e):
        text = e.text or ""
        if e.tag.endswith("}style"):
            text = re.sub(r"#([\w-]+)", lambda m: names.get(m.group(1), m.group()), text)
        return (e.tag, tuple(sorted((k, value(k, v)) for k, v in e.attrib.items())), text, tuple((walk(c), c.tail or "") for c in e if isinstance(c.tag, str)))

    return walk(e)


def drawing(root):
    """The elements of a page as comparable values."""
    return [canonical(e) for e in root if isinstance(e.tag, str)]
