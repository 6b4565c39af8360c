"""Trees of boxes: generator, builder and the reference layout.

A tree is a list of operations; operation i creates box i+1 (box 0 is the root of the slide):

  {"p": parent, "kind": "box|overlay|fbox|sbox", "via": bool, "args": {...}, "texts": [[n lines...], size]}

Position arguments are numbers, strings or {"dyn": [box, axis, place, [steps]]}.
"""
import copy

from hypothesis import strategies as st

from . import sut
from .core import Skip, Violation, close, judged, require

NUM = st.one_of(st.integers(0, 200), st.floats(0, 200).map(lambda v: round(v, 3)))


def size_values(fill=True, strings=True):
    opts = [
        st.none(),
        st.none(),
        NUM,
        st.integers(0, 100).map(lambda n: "%d%%" % n),
        st.integers(101, 250).map(lambda n: "%d%%" % n),
    ]
    if strings:
        opts.append(st.integers(0, 200).map(str))
    if fill:
        opts += [st.just("fill"), st.integers(1, 9).map(lambda n: "fill(%d)" % n)]
    return st.one_of(opts)


def pos_values():
    return st.one_of(
        st.integers(-60, 300),
        st.floats(-60, 300).map(lambda v: round(v, 3)),
        st.integers(0, 300).map(str),
        st.integers(0, 130).map(lambda n: "%d%%" % n),
        st.integers(0, 130).map(lambda n: "[%d%%]" % n),
    )


@st.composite
def dyn_values(draw, n):
    place = draw(st.one_of(st.integers(-50, 200), st.integers(0, 120).map(lambda v: "%d%%" % v), st.integers(0, 90).map(str)))
    steps = draw(st.lists(st.one_of(
        st.tuples(st.just("add"), st.integers(-40, 60)).map(list),
        st.tuples(st.just("mul"), st.sampled_from([0.5, 2, -1])).map(list)), max_size=2))
    how = draw(st.sampled_from(["axis", "axis", "p", "mid"]))
    return {"dyn": [draw(st.integers(0, n)), draw(st.sampled_from(["x", "y"])), place, steps, how]}


PADS = ("p_left", "p_right", "p_top", "p_bottom", "p_x", "p_y", "padding")


@st.composite
def trees(draw, max_boxes=14, positions=0.0, dynamic=0.0, pads=0.0, texts=0.2, prepend=0.0, extra=None, width=None):
    """positions/dynamic/pads/texts/prepend: how often each feature is used (0..1)."""
    n = draw(st.integers(1, max_boxes))
    wh = draw(st.sampled_from([[1024, 768], [400, 300], [640, 480.5], [1920, 1080]]))
    coin = st.integers(0, 99)
    ops = []
    # Chains, stars and in between
    shape = draw(st.sampled_from(["recent", "any", "root"]))
    for i in range(n):
        if shape == "recent":
            p = draw(st.integers(max(0, i - 2), i))
        elif shape == "root":
            p = draw(st.sampled_from([0, 0, 0, i]))
        else:
            p = draw(st.integers(0, i))
        kind = draw(st.sampled_from(["box"] * 7 + ["fbox", "fbox", "sbox", "sbox", "overlay"]))
        args = {}
        if kind == "box" or draw(coin) < 30:
            for name in ("width", "height"):
                v = draw(size_values())
                if v is not None:
                    args[name] = v
        if draw(st.booleans()):
            args["horizontal"] = True
        for name in ("x", "y"):
            if draw(coin) < positions * 100:
                if draw(coin) < dynamic * 100:
                    args[name] = draw(dyn_values(i))
                else:
                    args[name] = draw(pos_values())
        if draw(coin) < pads * 100:
            for name in draw(st.lists(st.sampled_from(PADS), min_size=1, max_size=5, unique=True)):
                args[name] = draw(st.one_of(st.integers(0, 40), st.just(0), st.floats(0, 30).map(lambda v: round(v, 2))))
        if draw(coin) < prepend * 100:
            args["prepend"] = True
        op = {"p": p, "kind": kind, "args": args}
        if draw(coin) < 15:
            op["via"] = True
        if draw(coin) < texts * 100:
            lines = draw(st.lists(st.integers(0, 12), min_size=1, max_size=3))
            op["text"] = [lines, draw(st.sampled_from([10, 20, 28, 33]))]
        if extra is not None:
            op.update(draw(extra))
        ops.append(op)
    spec = {"wh": wh, "ops": ops}
    if draw(coin) < 20:
        # The unfinished slide is rendered too
        spec["rendered"] = sorted(draw(st.sets(st.integers(0, n - 1), min_size=1, max_size=2)))
    return spec


# ---------------------------------------------------------------- reference layout

class Node:
    def __init__(self, idx, parent, kind, args, horizontal):
        self.idx = idx
        self.parent = parent
        self.args = args
        self.kind = kind
        self.horizontal = horizontal
        self.children = []
        self.text_size = (0.0, 0.0)
        self.inner = None
        self.outer = None

    def pad(self, side):
        axis = {"left": "p_x", "right": "p_x", "top": "p_y", "bottom": "p_y"}[side]
        for name in ("p_" + side, axis, "padding"):
            v = self.args.get(name)
            if v is not None:
                return v
        return 0

    def pads(self):
        return tuple(self.pad(s) for s in ("left", "right", "top", "bottom"))


def effective_args(kind, args, parent_horizontal):
    a = dict(args)
    if kind == "overlay":
        for k, v in (("x", 0), ("y", 0), ("width", "100%"), ("height", "100%")):
            a.setdefault(k, v)
    elif kind == "fbox":
        a.setdefault("width", "fill")
        a.setdefault("height", "fill")
    elif kind == "sbox":
        a.setdefault("height" if parent_horizontal else "width", "fill")
    return a


def parse_size(v):
    if v is None:
        return ("min", 0)
    if isinstance(v, (int, float)):
        return ("min", v)
    if v == "fill":
        return ("fill", 1)
    if v.startswith("fill("):
        return ("fill", int(v[5:-1]))
    if v.endswith("%"):
        return ("share", int(v[:-1]) / 100)
    return ("min", float(v))


def normalise(spec):
    """Turn any generated spec into one within the documented domain."""
    spec = copy.deepcopy(spec)
    nodes = model_tree(spec)
    # dynamic positions refer to boxes that are placed earlier
    order = {}

    def walk(n):
        order[n.idx] = len(order)
        for c in n.children:
            walk(c)

    walk(nodes[0])
    for i, op in enumerate(spec["ops"]):
        for name in ("x", "y"):
            v = op["args"].get(name)
            if isinstance(v, dict):
                t = v["dyn"][0] % (i + 1)
                if order[t] >= order[i + 1]:
                    t = op["p"]
                v["dyn"][0] = t
    return spec


def model_tree(spec):
    w, h = spec["wh"]
    root = Node(0, None, "root", {"width": w, "height": h}, False)
    nodes = [root]
    for i, op in enumerate(spec["ops"]):
        par = nodes[op["p"]]
        node = Node(i + 1, par, op["kind"], effective_args(op["kind"], op["args"], par.horizontal), bool(op["args"].get("horizontal")))
        if op["args"].get("prepend"):
            par.children.insert(0, node)
        else:
            par.children.append(node)
        if op.get("text"):
            lines, size = op["text"]
            node.text_size = text_size(lines, size)
        nodes.append(node)
    return nodes


def trimmed(lines):
    """A text ends at its last non-empty line: one line break at the end is dropped with all that belong to it."""
    lines = list(lines)
    while len(lines) > 1 and lines[-1] == 0:
        lines.pop()
    return lines


def text_size(lines, size):
    lines = trimmed(lines)
    return (max(lines) * size * 0.5, len(lines) * size * 1.2)


def content(n):
    """Smallest inner area (width, height) for what is in the box."""
    stacked = [c for c in n.children if c.args.get("x" if n.horizontal else "y") is None]
    w = [minimum(c)[0] for c in stacked] or [0]
    h = [minimum(c)[1] for c in stacked] or [0]
    if n.horizontal:
        cw, ch = sum(w), max(h)
    else:
        cw, ch = max(w), sum(h)
    return max(cw, n.text_size[0]), max(ch, n.text_size[1])


def minimum(n):
    """Smallest outer area of the box."""
    l, r, t, b = n.pads()
    cw, ch = content(n)
    out = []
    for name, c in (("width", cw + l + r), ("height", ch + t + b)):
        kind, v = parse_size(n.args.get(name))
        out.append(max(v, c) if kind == "min" else c)
    return tuple(out)


def place(n, outer, where):
    """Recursively assign areas; `where` maps box index to its inner area."""
    l, r, t, b = n.pads()
    n.outer = outer
    x, y, w, h = outer
    x, y, w, h = x + l, y + t, w - l - r, h - t - b
    if w < -1e-9 or h < -1e-9:
        raise Skip("negative area")
    n.inner = (x, y, w, h)
    where[n.idx] = n.inner

    main = 0 if n.horizontal else 1
    pos_name, size_name = ("xy"[main], ("width", "height")[main])
    length = (w, h)[main]
    stacked = [c for c in n.children if c.args.get(pos_name) is None]

    def fixed(c, axis, total):
        kind, v = parse_size(c.args.get(("width", "height")[axis]))
        m = minimum(c)[axis]
        return max(v * total, m) if kind == "share" else m

    rest = length
    weights = 0
    for c in stacked:
        kind, v = parse_size(c.args.get(size_name))
        if kind == "fill":
            weights += v
        else:
            rest -= fixed(c, main, length)
    if weights and rest < 0:
        raise Skip("no space left for filling boxes")
    cursor = (x, y)[main] + (0 if weights else rest / 2)

    for c in n.children:
        size = [0, 0]
        for axis, total in ((0, w), (1, h)):
            kind, v = parse_size(c.args.get(("width", "height")[axis]))
            if kind == "fill":
                alone = axis != main or c.args.get(pos_name) is not None
                size[axis] = total if alone else rest * v / weights
            else:
                size[axis] = fixed(c, axis, total)
        pos = [0, 0]
        for axis, (start, total) in ((0, (x, w)), (1, (y, h))):
            v = c.args.get("xy"[axis])
            if v is not None:
                pos[axis] = position(v, start, total, size[axis], where)
            elif axis == main:
                pos[axis] = cursor
                cursor += size[axis]
            else:
                pos[axis] = start + (total - size[axis]) / 2
        place(c, (pos[0], pos[1], size[0], size[1]), where)


def position(v, start, total, size, where):
    if isinstance(v, dict):
        return dyn_value(v["dyn"], where)
    if isinstance(v, (int, float)):
        return start + v
    if v.startswith("["):
        return start + (total - size) * int(v[1:-2]) / 100
    if v.endswith("%"):
        return start + total * int(v[:-1]) / 100
    return start + float(v)


def dyn_value(d, where):
    target, axis, at, steps, how = d
    tx, ty, tw, th = where[target]
    start, total = (tx, tw) if axis == "x" else (ty, th)
    if how == "mid":
        value = start + total / 2
    else:
        value = position(at, start, total, 0, where)
    for kind, k in steps:
        value = value + k if kind == "add" else value * k
    return value


def layout(spec):
    """Inner area of every box of a normalised spec."""
    nodes = model_tree(spec)
    where = {}
    w, h = spec["wh"]
    place(nodes[0], (0, 0, w, h), where)
    return nodes, where


# ---------------------------------------------------------------- building with elsie

def dyn_real(d, boxes):
    target, axis, at, steps, how = d
    box = boxes[target]
    if how == "axis":
        v = getattr(box, axis)(at)
    elif how == "p":
        pt = box.p(at, 0) if axis == "x" else box.p(0, at)
        moved = 0
        # LazyPoint.add moves both coordinates
        pt = pt.add(3, 5).add(-3, -5)
        v = getattr(pt, axis)
    else:
        v = getattr(box.mid_point(), axis)
    for kind, k in steps:
        if kind == "add":
            v = v.add(k)
        else:
            v = v.map(lambda q, k=k: q * k)
    return v


def real_args(args, boxes):
    out = {}
    for k, v in args.items():
        out[k] = dyn_real(v["dyn"], boxes) if isinstance(v, dict) and "dyn" in v else v
    return out


def text_of(lines):
    return "\n".join("abcdefghijklmnop"[:k] for k in lines)


def build(spec, slide, mark=True, item_hook=None):
    """Build the tree on a slide; returns the boxes (index 0 is the slide's root)."""
    import elsie

    boxes = [slide]
    items = {}
    if mark:
        items[0] = slide.rect(bg_color=sut.colour(0))
    for i, op in enumerate(spec["ops"]):
        parent = boxes[op["p"]]
        if op.get("via") and op["p"] in items:
            parent = items[op["p"]]
        box = getattr(parent, op["kind"])(**real_args(op["args"], boxes))
        boxes.append(box)
        if mark:
            items[i + 1] = box.rect(bg_color=sut.colour(i + 1))
        if op.get("text"):
            lines, size = op["text"]
            box.text(text_of(lines), elsie.TextStyle(size=size))
        if item_hook is not None:
            item_hook(i + 1, op, box, boxes)
        if i in spec.get("rendered", ()):
            sut.svgs(slide.slide.slides)
    return boxes


def check_layout(spec, env, backend=None):
    """The area of every box equals the reference model's. Returns the labels of the case."""
    spec = normalise(spec)
    nodes, where = layout(spec)
    with judged("rendering a valid slide"):
        deck = sut.make_deck(env, width=spec["wh"][0], height=spec["wh"][1])
        build(spec, deck.new_slide())
        (root,) = sut.svgs(deck)
        got = sut.colour_rects(root)
    for node in nodes:
        want = where[node.idx]
        rects = got.get(sut.colour(node.idx))
        require(rects is not None and len(rects) == 1, "box %d is drawn %d times", node.idx, len(rects or ()))
        for a, b, name in zip(rects[0], want, ("x", "y", "width", "height")):
            if not close(a, b):
                raise Violation("box %d (%s of box %s, %r): %s is %r, expected %r" % (
                    node.idx, node.kind, node.parent.idx if node.parent else None,
                    spec["ops"][node.idx - 1]["args"] if node.idx else {}, name, a, b))
    return nodes, where
