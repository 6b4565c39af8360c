"""C15: rendering is repeatable, slides are independent."""
import random

from hypothesis import strategies as st

from vlib import cairo_util, decks, sut, texts
from vlib.core import Skip, judged, require

ID = "C15"
RULE = ("decks of 2-5 slides using every drawing feature plus styles, lists, Markdown, inline boxes and images shared by the slides; each is rendered twice, rebuilt from the program (cold and warm caches, "
        "slides filled in an interleaved order, a second deck built in between), rendered in part and in another order, and rendered after a slide was added, removed or replaced; all drawings of a "
        "slide are compared as strings (or as pixels for the Cairo backend); non-trivial: at least two slides with items and one of the changes")
ASSUMPTIONS = ["slides are added, removed and replaced by changing the program"]

LABELLED = ("<svg xmlns='http://www.w3.org/2000/svg' xmlns:inkscape='http://www.inkscape.org/namespaces/inkscape' width='40' height='30'>"
            "<g inkscape:label='**1'><rect id='r' width='10' height='10'/></g><g inkscape:label='b **2-3'>t<circle r='3'/>u</g><path inkscape:label='c **3+' d='M0,0 L3,3'/></svg>")
LINKED = ("<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink' width='20mm' height='30'><defs><linearGradient id='g'/></defs>"
          "<rect id='q' width='4' height='4' style='fill:url(#g)'/><use xlink:href='#q' x='3'/></svg>")
NAMES = ["default", "emph", "own", "code", "tt", "md-bold"]
ATTRS = st.fixed_dictionaries({}, optional={"size": st.sampled_from([9, 17]), "color": st.sampled_from(["#123456", "red"]), "bold": st.booleans(), "italic": st.booleans(),
                                            "font": st.sampled_from(["f1", "f2"])})


@st.composite
def extra(draw):
    what = draw(st.sampled_from(["shared", "shared", "style", "text", "code", "list", "markdown", "bytes"]))
    at = draw(st.integers(0, 20))
    if what == "shared":
        v = {"which": draw(st.integers(0, 3)), "kw": draw(st.fixed_dictionaries({}, optional={
            "show_begin": st.integers(1, 3), "scale": st.sampled_from([0.5, 2]), "fragments": st.booleans(), "rotation": st.sampled_from([30, 90]),
            "select_fragments": st.lists(st.one_of(st.none(), st.integers(1, 3)), min_size=1, max_size=3)}))}
    elif what == "style":
        v = {"name": draw(st.sampled_from(NAMES)), "attrs": draw(ATTRS), "set": draw(st.booleans())}
    elif what == "text":
        v = {"fit": draw(st.booleans()), "style": draw(st.sampled_from(["default", "emph", "own"]))}
    elif what == "code":
        v = {"text": draw(st.sampled_from(["def ~#a{f}(x):\n    return ~emph{x ~#b{+} 1}", "~#a{x} = ~#b{1}"])), "fit": draw(st.booleans())}
    elif what == "list":
        v = {"start": draw(st.integers(0, 3)), "n": draw(st.integers(1, 4)), "ordered": draw(st.booleans())}
    elif what == "markdown":
        v = {"text": draw(st.sampled_from(["# H\n\na **b** *c*\n\n1. x\n2. y\n    - z", "> q\n\n```python\nx = 1\n```", "[l](u) ~emph{e}"]))}
    else:
        v = {"w": draw(st.integers(1, 9))}
    return [what, at, v]


@st.composite
def case(draw, tier, cairo):
    kinds = decks.ALL if not cairo else ("rect", "polygon", "line", "path", "png", "svg", "text")
    prog = draw(decks.programs(kinds=kinds, fit=True, min_slides=2, max_slides=4 if tier == "quick" else 6, max_ops=6 if tier == "quick" else 14, show=0.3, z=0.2, rel=0.1, prepend=0.1, view_box=0.2,
                               names=True))
    if cairo:
        prog["wh"] = [160, 120]
        for s in prog["slides"]:
            s["view_box"] = None
    n = len(prog["slides"])
    for s in prog["slides"]:
        s["extras"] = draw(st.lists(extra(), max_size=0 if cairo else 4))
        s["debug"] = draw(st.integers(0, 9)) == 0
    new = dict(draw(st.sampled_from(prog["slides"])), extras=draw(st.lists(extra(), max_size=0 if cairo else 3)))
    return {
        "prog": prog, "new": new, "change": draw(st.sampled_from(["add", "remove", "replace", "move"])), "at": draw(st.integers(0, n)),
        "subset": draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True)),
        "save": draw(st.booleans()), "prune": draw(st.booleans()), "interleave": draw(st.integers(0, 1000)),
    }


def assets(env):
    return [decks.asset(env, ".svg", LABELLED), decks.asset(env, ".svg", LINKED), decks.asset(env, ".png", decks.png_bytes(7, 5, (1, 2, 3))), decks.asset(env, ".svg", LABELLED)]


def add_extra(env, objs, what, at, v, mark):
    import elsie
    from elsie.ext import ordered_list, unordered_list
    from elsie.ext.markdown import markdown

    boxes = [o for o in objs if hasattr(o, "new_style") or hasattr(o, "set_style")]
    o = boxes[at % len(boxes)]
    if what == "shared":
        path = assets(env)[v["which"]]
        kw = dict(v["kw"])
        if path.endswith(".png"):
            kw = {k: kw[k] for k in ("scale", "rotation") if k in kw}
        o.image(path, **kw)
    elif what == "style":
        style = elsie.TextStyle(**v["attrs"])
        if v["set"] and v["name"] != "default":  # the default style has to stay complete
            o.set_style(v["name"], style)
        elif o.has_style(v["name"]):
            o.update_style(v["name"], style)
    elif what == "text":
        style = v["style"] if o.has_style(v["style"]) else "default"
        t = o.box().text("a ~emph{b} ~tt{c}\nd ~#q{e}", style, scale_to_fit=v["fit"])
        t.inline_box("#q").rect(color=mark)
        t.line_box(1).rect(color=mark)
    elif what == "code":
        t = o.box().code("python", v["text"], use_styles=True, scale_to_fit=v["fit"])
        t.inline_box("#a").rect(color=mark)
        t.inline_box("#b").rect(color=mark)
    elif what == "list":
        if v["ordered"]:
            lst = ordered_list(o, start=v["start"])
        else:
            lst = unordered_list(o)
        for i in range(v["n"]):
            lst.item().text("i%d" % i)
            if i == 1:
                lst = lst.ol()
    elif what == "markdown":
        markdown(o, v["text"])
    elif what == "bytes":
        o.image(decks.png_bytes(v["w"], 2, (9, 9, 9)), image_type="png")


def build(env, deck, prog, order, seed=None):
    """Build the slides (numbers of slides of prog) in order; with a seed, fill them interleaved. Returns the root boxes."""
    roots = {}
    for s in order:
        conf = prog["slides"][s]
        kw = {}
        if conf["bg"]:
            kw["bg_color"] = sut.colour(decks.bg_mark(s))
        if conf.get("view_box"):
            kw["view_box"] = tuple(conf["view_box"])
        if conf.get("debug"):
            kw["debug_boxes"] = True
        if seed is None:
            fill(env, deck, prog, s, roots.setdefault(s, deck.new_slide(**kw)))
        else:
            roots[s] = deck.new_slide(**kw)
    if seed is not None:
        rest = list(order)
        random.Random(seed).shuffle(rest)
        for s in rest:
            fill(env, deck, prog, s, roots[s])
    return [roots[s] for s in order]


def fill(env, deck, prog, s, root):
    objs = decks.build_slide(env, deck, prog, s, new_slide=lambda **kw: root)
    for what, at, v in prog["slides"][s].get("extras", ()):
        add_extra(env, objs, what, at, v, sut.colour(decks.bg_mark(s) - 1))


def pages(env, deck, roots, backend, **kw):
    """[(slide number in roots, fragment, drawing)] of all pages."""
    kw.setdefault("select_slides", [r.slide for r in roots])
    if backend == "cairo":
        units = sut.render_units(deck, export_type="png", **kw)
        drawings = [cairo_util.pixels(u) for u in units]
    else:
        units = sut.render_units(deck, **kw)
        drawings = [u.get_svg() for u in units]
    index = {id(r.slide): i for i, r in enumerate(roots)}
    return [(index[id(u.slide)], u.step, d) for u, d in zip(units, drawings)]


def by_slide(env, deck, roots, order, backend, **kw):
    """Slide number of the program -> its drawings."""
    out = {s: [] for s in order}
    for i, step, d in pages(env, deck, roots, backend, **kw):
        require(step == len(out[order[i]]) + 1, "fragment %r in place %d of its slide", step, len(out[order[i]]) + 1)
        out[order[i]].append(d)
    return out


def same(a, b, slides, what):
    for s in slides:
        require(len(a[s]) == len(b[s]), "%s: slide %d has %d fragments instead of %d", what, s, len(b[s]), len(a[s]))
        for i, (x, y) in enumerate(zip(a[s], b[s])):
            if x != y:
                at = next((k for k, (c, d) in enumerate(zip(x, y)) if c != d), min(len(x), len(y)))
                require(False, "%s: fragment %d of slide %d is drawn differently: %r instead of %r", what, i + 1, s, y[max(0, at - 60): at + 60], x[max(0, at - 60): at + 60])


def check(spec, env, backend=None):
    prog = dict(spec["prog"])
    n = len(prog["slides"])
    prog["slides"] = prog["slides"] + [spec["new"]]
    order = list(range(n))
    other = {"save_cache": spec["save"], "prune_cache": spec["prune"]}
    kw = decks.deck_kwargs(prog)
    with judged("rendering repeatedly"):
        cache = sut.case_dir(env)
        deck = sut.make_deck(env, cache_dir=cache, backend=backend, **kw)
        roots = build(env, deck, prog, order)
        first = by_slide(env, deck, roots, order, backend, **other)
        same(first, by_slide(env, deck, roots, order, backend), order, "second render")
        # again from the program; warm cache, slides filled in another order, another deck in between
        finished = dict(prog, slides=[dict(s, rendered=[]) for s in prog["slides"]])
        deck2 = sut.make_deck(env, cache_dir=cache, backend=backend, **kw)
        third = sut.make_deck(env, cache_dir=cache, backend=backend, **kw)
        build(env, third, prog, [spec["at"]])
        roots2 = build(env, deck2, finished, order, spec["interleave"])
        sut.render_units(third, **({"export_type": "png"} if backend else {}))
        same(first, by_slide(env, deck2, roots2, order, backend, **other), order, "slides filled in another order, warm caches")
        # some of the slides only
        sub = spec["subset"]
        deck3 = deck if spec["save"] else sut.make_deck(env, cache_dir=cache, backend=backend, **kw)
        roots3 = roots if spec["save"] else build(env, deck3, prog, order)
        same(first, by_slide(env, deck3, [roots3[s] for s in sub], sub, backend, **other), sub, "slides %r only" % sub)
        # a changed program
        change, at = spec["change"], spec["at"] % n
        order2 = list(order)
        if change == "add":
            order2.insert(spec["at"], n)
        elif change == "remove":
            order2.remove(at)
        elif change == "replace":
            order2[at] = n
        else:
            order2.append(order2.pop(at))
        if not order2:
            raise Skip("no slide left")
        deck4 = sut.make_deck(env, cache_dir=cache, backend=backend, **kw)
        roots4 = build(env, deck4, prog, order2)
        same(first, by_slide(env, deck4, roots4, order2, backend, **other), [s for s in order2 if s != n], "after changing (%s) another slide" % change)
        same(first, by_slide(env, deck, roots, order, backend), order, "first deck rendered again at the end")
    labels = {change, "%d slides" % n}
    used = [s for s in prog["slides"][:n] if any(o["t"] == "item" for o in s["ops"]) or s.get("extras")]
    if len(used) >= 2:
        labels.add("nontrivial")
    for s in prog["slides"]:
        for what, _, _ in s.get("extras", ()):
            labels.add("extra:" + what)
    if any(len(v) > 1 for v in first.values()):
        labels.add("several fragments")
    return sorted(labels)


SUITES = {
    "svg": {"strategy": lambda tier: case(tier, False), "check": check, "share": 0.85},
    "cairo": {"strategy": lambda tier: case(tier, True), "check": lambda spec, env: check(spec, env, "cairo"), "share": 0.15},
}
CASES = {"quick": 2600, "thorough": 20000}
