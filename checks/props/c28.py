"""C28: lists."""
from hypothesis import strategies as st

from vlib import decks, sut
from vlib import texts as drawing
from vlib.core import close, judged, require

ID = "C28"
RULE = ("building histories of 1-14 items and sublists (ordered and unordered, added to any list made so far) on 1-2 lists with any start, level, label (default, string, function), indent, gap and box arguments "
        "(show, z_level, paddings); labels, counters, fragments, painting order, vertical and horizontal places of labels and contents are compared with a model; non-trivial: a sublist with an item after one of its parent's")
ASSUMPTIONS = ["text extents come from a simulated Inkscape with exact metrics", "labels are not empty strings", "indentation: only that it grows by at least the requested indent"]
CASES = {"quick": 6500, "thorough": 50000}

SHOW = st.one_of(st.sampled_from(["next+", "last+", "next", "2+", "1", "1-2", "3"]), st.integers(1, 4))
LABEL = st.one_of(st.none(), st.none(), st.none(), st.sampled_from(["-", "*)", "==>"]), st.just("fn"))


@st.composite
def box_args(draw):
    out = {}
    if draw(st.integers(0, 2)) == 0:
        out["show"] = draw(SHOW)
    if draw(st.integers(0, 7)) == 0:
        out["z_level"] = draw(st.integers(-2, 2))
    if draw(st.integers(0, 4)) == 0:
        out[draw(st.sampled_from(["p_top", "p_bottom"]))] = draw(st.integers(0, 30))
    return out


INDENT = st.sampled_from([None, None, None, 0, 5, 40])
ROOT = st.fixed_dictionaries({"ordered": st.booleans(), "start": st.sampled_from([None, None, 0, 1, 5]), "label": LABEL, "indent": INDENT, "gap": st.sampled_from([None, None, 0, 7]), "args": box_args()})
ITEM = st.fixed_dictionaries({"t": st.just("item"), "list": st.integers(0, 9), "label": LABEL, "gap": st.sampled_from([None, None, None, 0, 11]), "args": box_args(),
                              "size": st.tuples(st.integers(1, 60), st.integers(1, 60)).map(list)})
SUB = st.fixed_dictionaries({"t": st.just("sub"), "list": st.integers(0, 9), "ordered": st.booleans(), "start": st.sampled_from([None, None, 0, 1, 4, 10]), "label": LABEL, "indent": INDENT,
                             "level": st.sampled_from([None, None, None, None, [1, 3], [], [7]]), "args": box_args(), "with": st.booleans()})


def strategy(tier):
    return st.fixed_dictionaries({"roots": st.lists(ROOT, min_size=1, max_size=2), "ops": st.one_of([st.lists(st.one_of(ITEM, ITEM, SUB), min_size=n, max_size=14 if tier == "quick" else 30) for n in (1, 4, 8)])})


class Node:
    """A list or an item of the model."""

    def __init__(self, kind, parent, args, current):
        self.kind = kind
        self.parent = parent
        self.args = args
        self.children = []
        self.select = decks.selection(args["show"], current)
        self.z = args.get("z_level", parent.z if parent else 0)


class RootNode:
    z = 0
    parent = None


LABEL_SIZES = [(12, 9), (30, 50), (3, 28)]


def check(spec, env):
    labels = set()
    with judged("a list"):
        from elsie.ext import ordered_list, unordered_list

        deck = sut.make_deck(env, width=4000, height=3000)
        slide = deck.new_slide()
        current = 1
        calls = []  # of label functions
        given = []

        def label_fn(number, size):
            def fn(box, level):
                calls.append((number, list(level)))
                box.box(width=size[0], height=size[1]).rect(bg_color=sut.colour(20000 + len(calls)))
                box.rect(bg_color=sut.colour(10000 + len(calls)))

            return fn

        lists = []  # (builder, node)
        roots = []
        for r in spec["roots"]:
            kw = dict(r["args"])
            if r["indent"] is not None:
                kw["indent"] = r["indent"]
            if r["gap"] is not None:
                kw["label_padding"] = r["gap"]
            fn = None
            if r["label"] is not None:
                fn = label_fn(len(lists), LABEL_SIZES[len(lists) % 3])
                kw["label"] = fn if r["label"] == "fn" else r["label"]
            if r["ordered"] and r["start"] is not None:
                kw["start"] = r["start"]
            b = (ordered_list if r["ordered"] else unordered_list)(slide.box(), **kw)
            n = Node("list", RootNode(), {"show": (None)}, current)
            n.defaults = dict({"show": "last+"}, **r["args"])
            n.counters = [(r["start"] if r["ordered"] and r["start"] is not None else 1) - 1]
            n.ordered, n.label, n.size = r["ordered"], r["label"], LABEL_SIZES[len(lists) % 3]
            n.number = len(lists)
            n.indent = 10 if r["indent"] is None else r["indent"]
            n.own_indent = 0
            n.gap = 25 if r["gap"] is None else r["gap"]
            n.args = {}
            lists.append((b, n))
            roots.append(n)
        calls_expected = []
        items = []
        for op in spec["ops"]:
            b, p = lists[op["list"] % len(lists)]
            args = dict(p.defaults, **op["args"])
            kw = dict(op["args"])
            if op["t"] == "sub":
                n = Node("list", p, args, current)
                current = max(current, decks.named(n.select))
                n.number = len(lists)
                n.size = LABEL_SIZES[len(lists) % 3]
                n.label = op["label"]
                if op["label"] is not None:
                    kw["label"] = label_fn(n.number, n.size) if op["label"] == "fn" else op["label"]
                if op["indent"] is not None:
                    kw["indent"] = op["indent"]
                n.ordered = op["ordered"]
                level = p.counters
                if n.ordered:
                    if op["start"] is not None:
                        kw["start"] = op["start"]
                    if op["level"] is not None:
                        level = op["level"]
                        kw["level"] = list(level)
                        given.append((kw["level"], list(level)))
                n.counters = list(level) + [(op["start"] if n.ordered and op["start"] is not None else 1) - 1]
                n.defaults = args
                n.indent = p.indent if op["indent"] is None else op["indent"]
                n.own_indent = n.indent
                n.gap = p.gap
                sub = b.ol(**kw) if n.ordered else b.ul(**kw)
                if op["with"]:
                    with sub as sub:
                        pass
                p.children.append(n)
                lists.append((sub, n))
                continue
            n = Node("item", p, args, current)
            current = max(current, decks.named(n.select))
            p.counters[-1] += 1
            n.k = len(items)
            n.counters = list(p.counters)
            if op["gap"] is not None:
                kw["label_padding"] = op["gap"]
            n.gap = p.gap if op["gap"] is None else op["gap"]
            number, size = p.number, p.size
            label = p.label
            if op["label"] is not None:
                label, number, size = op["label"], 100 + n.k, LABEL_SIZES[n.k % 3]
                kw["label"] = label_fn(number, size) if label == "fn" else label
            n.text = None
            if label == "fn":
                calls_expected.append((number, n.counters))
                n.call = len(calls_expected)
                n.lsize = size
            else:
                n.text = label if label is not None else ".".join(map(str, n.counters)) + "." if p.ordered else "\u2022"
                n.lsize = (14 * len(n.text), 33.6)
            n.size = op["size"]
            content = b.item(**kw)
            content.rect(bg_color=sut.colour(2 * n.k))
            content.box(width=op["size"][0], height=op["size"][1]).rect(bg_color=sut.colour(2 * n.k + 1))
            p.children.append(n)
            items.append(n)
        require(calls == calls_expected, "label functions were called for (label, counters) %r, expected %r", calls, calls_expected)
        for got, want in given:
            require(got == want, "the list given as level was changed to %r", got)

        order = []

        def walk(n, visible):
            for c in n.children:
                shown = visible + [c.select]
                if c.kind == "list":
                    walk(c, shown)
                else:
                    order.append((c, shown))

        for r in roots:
            walk(r, [])
        units = sut.render_units(deck)
        require(len(units) == current, "%d fragments, expected %d", len(units), current)
        places = {}
        for step, u in enumerate(units, 1):
            want = []
            for c, shown in order:
                if all(decks.selected(s, step) for s in shown):
                    lab = [("text", drawing.plain(c.text))] if c.text is not None else [("label", c.call), ("label inner", c.call)]
                    want += [(c.z, c, x) for x in lab + [("content", c.k), ("inner", c.k)]]
            want.sort(key=lambda w: w[0])
            got = []
            for e in sut.parse_svg(u.get_svg()):
                if sut.local(e) == "text":
                    got.append((("text", drawing.shown(e)), (sut.fl(e, "x"), sut.fl(e, "y"))))
                    continue
                m = decks.mark_of(e)
                kind = ("label inner", m - 20000) if m > 20000 else ("label", m - 10000) if m > 10000 else ("inner" if m % 2 else "content", m // 2)
                got.append((kind, sut.rect_of(e)))

            def norm(seq):  # the order of a box's own rectangle and of what is inside of it is not part of this property
                out = []
                for s in seq:
                    if s[0] in ("label", "label inner"):
                        s = ("label", s[1])
                    if s[0] in ("content", "inner"):
                        s = ("content", s[1])
                    if not out or out[-1] != s:
                        out.append(s)
                return out

            require(norm([g[0] for g in got]) == norm([w[2] for w in want]), "fragment %d shows %r, expected %r", step, [g[0] for g in got], [w[2] for w in want])
            require(len(got) == len(want), "fragment %d shows %d elements, expected %d", step, len(got), len(want))
            texts = [w[1] for w in want if w[2][0] == "text"]
            for g in got:
                key = g[0] if g[0][0] != "text" else ("text", texts.pop(0).k)
                old = places.setdefault(key, g[1])
                require(all(close(a, b) for a, b in zip(old, g[1])), "%r moves between fragments", key)

        def height(n):
            pad = n.args.get("p_top", 0) + n.args.get("p_bottom", 0)
            if n.kind == "item":
                return pad + max(n.lsize[1], n.size[1])
            return pad + sum(height(c) for c in n.children)

        for r in roots:
            base = [None]
            left = {}

            def place(n, y):
                y += n.args.get("p_top", 0)
                for c in n.children:
                    if c.kind == "list":
                        place(c, y)
                    elif ("content", c.k) in places:
                        top = y + c.args.get("p_top", 0)
                        inner = max(c.lsize[1], c.size[1])
                        what = "item %d with counters %r" % (c.k, c.counters)
                        cx, cy, cw, ch = places[("inner", c.k)]
                        if base[0] is None:
                            base[0] = cy - (top + (inner - c.size[1]) / 2)
                        require(close(cy - base[0], top + (inner - c.size[1]) / 2), "the content of %s is at %r below the top of the list, expected %r", what, cy - base[0], top + (inner - c.size[1]) / 2)
                        require(close(cw, c.size[0]) and close(ch, c.size[1]), "the content of %s has size %r", what, (cw, ch))
                        ox, oy, ow, oh = places[("content", c.k)]
                        require(close(oh, c.size[1]) and ow >= c.size[0] - 1e-6, "the content box of %s has size %r for content of size %r", what, (ow, oh), c.size)
                        if c.text is None:
                            lx, ly, lw, lh = places[("label", c.call)]
                            require(close(ly - base[0], top), "the label of %s is at %r below the top of the list, expected %r", what, ly - base[0], top)
                            require(close(lw, c.lsize[0]) and close(lh, c.lsize[1]), "the label of %s has size %r", what, (lw, lh))
                        else:
                            lx, ly = places[("text", c.k)]
                            require(top - 1e-6 <= ly - base[0] <= top + inner + 1e-6, "the label of %s is at %r, its item at %r with height %r", what, ly - base[0], top, inner)
                        require(close(ox - lx, c.lsize[0] + c.gap), "the content of %s starts %r behind the start of its label, expected %r", what, ox - lx, c.lsize[0] + c.gap)
                        old = left.setdefault(n.number, lx)
                        require(close(lx, old), "items of one list start at %r and %r", old, lx)
                    y += height(c)

            place(r, 0)

            def nested(n, least, outer):
                mine = left.get(n.number)
                if outer is not None and mine is not None:
                    require(mine - outer >= least - 1e-6, "a sublist is indented by %r, expected at least %r", mine - outer, least)
                for c in n.children:
                    if c.kind == "list":
                        if mine is not None:
                            nested(c, c.own_indent, mine)
                        else:
                            nested(c, least + c.own_indent, outer)

            nested(r, 0, None)

            def plain(n):
                """Sublists of lists that are not indented."""
                mine = left.get(n.number)
                subs = [c for c in n.children if c.kind == "list" and c.number in left]
                for c in subs:
                    if c.own_indent == 0 and mine is not None:
                        require(close(left[c.number], mine), "a sublist with an indent of 0 is indented by %r", left[c.number] - mine)
                for c, d in zip(subs, subs[1:]):
                    more = left[d.number] - left[c.number]
                    require(close(more, 0) if c.own_indent == d.own_indent else more * (d.own_indent - c.own_indent) > 0, "sublists with indents %r and %r start at %r and %r", c.own_indent, d.own_indent, left[c.number], left[d.number])
                for c in n.children:
                    if c.kind == "list" and c.own_indent == 0:
                        plain(c)

            plain(r)
    for b, n in lists:
        for i, c in enumerate(n.children):
            if c.kind == "list" and c.children and any(d.kind == "item" for d in n.children[:i]):
                labels.add("nontrivial")
                if any(d.kind == "item" for d in n.children[i:]):
                    labels.add("item after sublist")
    labels.add("%d fragments" % min(current, 5))
    if any(n.label == "fn" for _, n in lists):
        labels.add("label function")
    return sorted(labels)
