"""C33: debug boxes."""
import copy
import re

from hypothesis import strategies as st

from vlib import cairo_util, decks, sut, texts
from vlib.core import judged, require

ID = "C33"
RULE = ("decks of 1-3 slides with every kind of content, named boxes, selectors, z-levels, prepend/above/below, backgrounds and view boxes are built without debug boxes and with debug boxes on some of their slides (by new_slide or the decorator, on both backends); "
        "the drawing of a fragment must be the one without debug boxes plus exactly one outline and label for each visible box; the areas of the boxes are observed by a rectangle in each box; non-trivial: a slide with 3 visible boxes one of which is named or empty")
ASSUMPTIONS = ["the box of a slide's background may or may not have an outline"]
CASES = {"quick": 2600, "thorough": 40000}
PINK = "#ff00ff"
NAME = st.one_of(st.none(), st.none(), st.text(alphabet="ab<&>\"' [],.5é~{}", min_size=1, max_size=6).map(lambda s: s.strip() or "n"), st.sampled_from(["inner", "[1,2]", "n1"]))


@st.composite
def strategy_(draw, tier):
    prog = draw(decks.programs(max_slides=3, max_ops=9 if tier == "quick" else 18, fit=True, show=0.25, z=0.15, prepend=0.1, rel=0.1, bg=0.3, view_box=0.2, item_share=0.4, pads=0.25))
    for s in prog["slides"]:
        s["debug"] = draw(st.integers(0, 3)) > 0
        s["decorated"] = draw(st.booleans())
        s["name"] = draw(NAME)
        n = len(s["ops"])
        for op in s["ops"]:
            if op["t"] == "box":
                name = draw(NAME)
                if name is not None:
                    op["args"]["name"] = name
        # a rectangle in each box shows its area
        for k in range(n + 1):
            if k == 0 or s["ops"][k - 1]["t"] == "box":
                s["ops"].append({"t": "item", "p": k, "what": "rect", "v": {"edge": False, "rotation": None, "sw": 1, "dash": None, "rx": None}})
    prog["cairo"] = draw(st.integers(0, 7)) == 0
    return prog


def strategy(tier):
    return strategy_(tier)


def build(env, prog, backend=None, debug=True, **kw):
    deck = sut.make_deck(env, backend=backend, **dict(decks.deck_kwargs(prog), **kw))
    for s, conf in enumerate(prog["slides"]):
        if not debug or not conf["debug"]:
            p = copy.deepcopy(prog)
            p["slides"][s]["debug"] = False
        else:
            p = prog
        if conf["decorated"]:
            def new(**a):
                root = []

                def intro(slide):
                    root.append(slide)

                deck.slide(*([conf["name"]] if conf["name"] else []), **a)(intro)
                return root[0]
        else:
            def new(**a):
                return deck.new_slide(conf["name"], **a)
        decks.build_slide(env, deck, p, s, new)
    return deck


def elements(root):
    """[(kind, value)] of the elements of a drawing: outlines and labels of debug boxes, and the others."""
    out = []
    for e in root:
        if not isinstance(e.tag, str):
            continue
        style = sut.style_of(e) if e.get("style") else {}
        if sut.local(e) == "rect" and style.get("stroke") == PINK:
            out.append(("outline", sut.rect_of(e)))
            require(style.get("fill", "none") == "none", "outline filled with %s", style.get("fill"))
        elif sut.local(e) == "text" and (style.get("fill") == PINK or e.get("fill") == PINK):
            out.append(("label", texts.plain("".join(e.itertext()))))
        else:
            out.append(("other", decks.canonical(e)))
    return out


def frame(root):
    return {k: v for k, v in root.attrib.items()}


def visible_boxes(model, step):
    """The boxes in painting order of their contents."""
    out = []

    def walk(o):
        if decks.selected(o.select, step):
            out.append(o)
            for c in o.children:
                if c.is_box:
                    walk(c)

    walk(model.objs[0])
    return out


def close(a, b):
    return len(a) == len(b) and all(abs(x - y) < 1e-6 for x, y in zip(a, b))


def check(prog, env):
    labels = set()
    with judged("rendering the deck without debug boxes"):
        plain = [sut.svgs(d) for d in [build(env, prog, debug=False)]][0]
    with judged("rendering the deck with debug boxes"):
        debug = [sut.svgs(d) for d in [build(env, prog)]][0]
    require(len(plain) == len(debug), "%d fragments without debug boxes, %d with", len(plain), len(debug))
    pages = []
    for s, conf in enumerate(prog["slides"]):
        model = decks.SlideModel(prog, s)
        for step in range(1, model.steps + 1):
            pages.append((s, conf, model, step))
    require(len(pages) == len(plain), "%d fragments instead of %d", len(plain), len(pages))
    for (s, conf, model, step), p, d in zip(pages, plain, debug):
        where = "slide %d, fragment %d" % (s + 1, step)
        require(frame(p) == frame(d), "%s: attributes of the drawing differ: %r and %r", where, frame(p), frame(d))
        base, got = elements(p), elements(d)
        require(all(k == "other" for k, _ in base), "%s: outlines without debug boxes", where)
        if not conf["debug"]:
            require(base == got, "%s: the debug boxes of other slides changed it", where)
            continue
        others = [x for x in got if x[0] == "other"]
        if others != base:
            diff = [(a[1][:200], b[1][:200]) for a, b in zip(base, others) if a != b]
            require(False, "%s: %d elements without debug boxes, %d others with; first difference %s", where, len(base), len(others), diff[:1])
        rects = sut.colour_rects(p)
        want = []
        for o in visible_boxes(model, step):
            items = [c.k for c in o.children if not c.is_box and c.k > len(conf["ops"]) - sum(x["t"] == "box" for x in conf["ops"]) - 1 and c.op["what"] == "rect"]
            area = rects.get(sut.colour(decks.mark(s, items[-1])))
            require(area and len(area) == 1, "%s: the area of box %d is not drawn", where, o.k)
            x, y, w, h = area[0]
            name = o.op["args"].get("name") if o.op else conf["name"] or ("intro" if conf["decorated"] else None)
            want.append(((x, y, max(w, 0.1), max(h, 0.1)), name, o.k))
        outlines = [v for k, v in got if k == "outline"]
        tags = [v for k, v in got if k == "label"]
        require(len(outlines) == len(tags), "%s: %d outlines and %d labels", where, len(outlines), len(tags))
        pairs = list(zip(outlines, tags))
        for area, name, k in want:
            hit = next((q for q in pairs if close(q[0], area) and fits(q[1], name, area)), None)
            require(hit, "%s: no outline %r with the name %r and the size for box %d; there are %r", where, area, name, k, pairs)
            pairs.remove(hit)
        W, H = prog["wh"]
        if pairs and model.bg is not None:
            pairs.pop()
        require(not pairs, "%s: outlines of no box: %r", where, pairs)
        if len(want) >= 3 and any(name or area[2] <= 0.1 or area[3] <= 0.1 for area, name, _ in want):
            labels.add("nontrivial")
    if prog["cairo"]:
        labels.add("cairo")
        cairo(prog, env, len(pages), [p[1]["debug"] for p in pages])
    if any(s["decorated"] and s["debug"] for s in prog["slides"]):
        labels.add("decorated")
    return sorted(labels)


SIZE = re.compile(r"\[(\d+(?:\.\d+)?), ?(\d+(?:\.\d+)?)\]\s*$")


def fits(label, name, area):
    m = SIZE.search(label)
    if not m or any(abs(float(a) - b) > 0.0051 for a, b in zip(m.groups(), area[2:])):
        return False
    rest = label[: m.start()].strip()
    rest = rest[1:].strip() if rest[:1] in "↖↙" else rest
    return rest == (name or "").strip()


def cairo(prog, env, n, debugged):
    from PIL import ImageChops

    with judged("rendering with Cairo"):
        a = sut.render_units(build(env, prog, "cairo", False), export_type="png")
        b = sut.render_units(build(env, prog, "cairo"), export_type="png")
        require(len(a) == len(b) == n, "Cairo: %d fragments without debug boxes, %d with, %d expected", len(a), len(b), n)
        for i, (u, v) in enumerate(zip(a, b)):
            p, q = cairo_util.picture(u).convert("RGBA"), cairo_util.picture(v).convert("RGBA")
            require(p.size == q.size, "Cairo: the size differs")
            changed = ImageChops.difference(p, q).point(lambda c: 255 if c > 3 else 0)
            some = changed.getbbox() is not None or any(ch.getbbox() for ch in changed.split())
            if not debugged[i]:
                require(not some, "Cairo: page %d changes by the debug boxes of other slides", i + 1)
                continue
            pink = 0
            for x, y in zip(p.getdata(), q.getdata()):
                if x != y:
                    pink += y[3] > 60 and y[0] > 200 and y[2] > 200 and y[1] < 90
                    # magenta was added: nothing else appears and nothing is cleared
                    require(y[3] >= x[3] - 3, "Cairo: page %d: the debug boxes clear pixels", i + 1)
                    if x[3] == 255:
                        require(y[0] >= x[0] - 3 and y[2] >= x[2] - 3 and y[1] <= x[1] + 3, "Cairo: page %d: pixel %r becomes %r by the debug boxes", i + 1, x, y)
            require(pink > 20 or prog["slides"][0]["view_box"] is not None or any(s["view_box"] for s in prog["slides"]), "Cairo: page %d shows no outlines", i + 1)
