"""C05: visibility of boxes in fragments."""
from vlib import decks, sut
from vlib.core import judged, require

ID = "C05"
RULE = ("decks of 1-2 slides with 1-12 boxes and items (shapes, lines, paths, texts, code, PNG and SVG images), boxes with selectors of every form at any depth "
        "and creation order; the set of marks in every fragment against a set model; non-trivial: a box with a selector inside another one that has one, or last/next")
ASSUMPTIONS = ["fragments are numbered from 1"]
CASES = {"quick": 7500, "thorough": 60000}


def strategy(tier):
    return decks.programs(max_slides=2, max_ops=12 if tier == "quick" else 20, show=0.65, item_share=0.45, bg=0.15, prepend=0.05, rel=0.05, z=0.05)


def selector_labels(prog, models):
    labels = set()
    for m in models:
        for o in m.objs[1:]:
            if not o.is_box or "show" not in o.op["args"]:
                continue
            s = o.op["args"]["show"]
            if isinstance(s, str) and ("next" in s or "last" in s):
                labels.add("placeholder")
            if isinstance(s, str) and s.endswith("+"):
                labels.add("open range")
            if isinstance(s, str) and "-" in s:
                labels.add("range")
            p = o.parent
            while p is not None:
                if p.op is not None and "show" in p.op["args"]:
                    labels.add("nested selectors")
                p = p.parent
    return labels


def check(prog, env):
    models = [decks.SlideModel(prog, s) for s in range(len(prog["slides"]))]
    with judged("rendering a valid deck"):
        deck = decks.build(env, prog)
        units = sut.render_units(deck)
        roots = [sut.parse_svg(u.get_svg()) for u in units]
    require(len(roots) == sum(m.steps for m in models), "%d pages instead of %s", len(roots), [m.steps for m in models])
    i = 0
    for m in models:
        for f in range(1, m.steps + 1):
            got = {x for x in decks.mark_sequence(roots[i]) if x is not None}
            i += 1
            want = set(m.painted_marks(f))
            for x in sorted(got ^ want, key=str):
                o = m.objs[x - m.s * decks.PER_SLIDE] if isinstance(x, int) and x - m.s * decks.PER_SLIDE in range(len(m.objs)) else None
                require(False, "slide %d fragment %d: object %s (%s) is %s", m.s + 1, f, x, o and o.op, "drawn" if x in got else "not drawn")
    labels = selector_labels(prog, models)
    labels |= {"item " + op["what"] for s in prog["slides"] for op in s["ops"] if op["t"] == "item"}
    if "nested selectors" in labels or "placeholder" in labels:
        labels.add("nontrivial")
    labels.add("fragments: %d" % max(m.steps for m in models))
    return sorted(labels)
