"""C08: painting order."""
from vlib import decks, sut
from vlib.core import judged, require

ID = "C08"
RULE = ("creation histories of boxes and items with prepend, above/below any earlier sibling (box or item), z-levels (inherited, positive, negative), slide and deck backgrounds; "
        "the sequence of marks in each fragment against a list model; suite stack: boxes created with prepend/above/below in a row, compared with their places on the main axis; "
        "non-trivial: the painting order differs from the creation order")
ASSUMPTIONS = []


def strategy(tier):
    return decks.programs(max_slides=2, max_ops=13 if tier == "quick" else 22, show=0.1, z=0.45, prepend=0.25, rel=0.35, bg=0.4, item_share=0.55)


def check(prog, env):
    with judged("rendering a valid deck"):
        roots = sut.svgs(decks.build(env, prog))
    labels = set()
    i = 0
    for s in range(len(prog["slides"])):
        m = decks.SlideModel(prog, s)
        for f in range(1, m.steps + 1):
            require(i < len(roots), "page missing")
            got = decks.mark_sequence(roots[i])
            i += 1
            want = decks.collapse(m.painted_marks(f))
            require(got == want, "slide %d fragment %d is painted in order %r instead of %r", s + 1, f, got, want)
            items = [k for k in m.painted(f)]
            if items != sorted(items):
                labels.add("nontrivial")
        if m.bg is not None:
            labels.add("background")
        for o in m.objs[1:]:
            if o.is_box:
                if o.op["args"].get("z_level"):
                    labels.add("z-level")
                if o.op["rel"]:
                    labels.add("above/below")
                if o.op["args"].get("prepend"):
                    labels.add("prepend")
    return sorted(labels)


def stack_strategy(tier):
    from hypothesis import strategies as st

    op = st.tuples(st.sampled_from(["end", "end", "prepend", "above", "below", "prepend+above", "prepend+below"]), st.integers(0, 9), st.integers(1, 30)).map(list)
    return st.fixed_dictionaries({"horizontal": st.booleans(), "ops": st.lists(op, min_size=2, max_size=9)})


def check_stack(spec, env):
    paint, stack = [], []
    with judged("boxes in a row"):
        deck = sut.make_deck(env, width=500, height=500)
        row = deck.new_slide().box(horizontal=spec["horizontal"], x=0, y=0, width=400, height=400)
        bx = []
        for i, (how, ref, size) in enumerate(spec["ops"]):
            kw = {}
            at = len(paint)
            if "prepend" in how:
                kw["prepend"] = True
                at = 0
            if how.endswith(("above", "below")) and bx:
                r = ref % len(bx)
                kw["above" if how.endswith("above") else "below"] = bx[r]
                at = paint.index(r) + (1 if how.endswith("above") else 0)
            b = row.box(width=size, height=size, **kw)
            b.rect(bg_color=sut.colour(i))
            bx.append(b)
            paint.insert(at, i)
            stack.insert(0 if "prepend" in kw else len(stack), i)
        (root,) = sut.svgs(deck)
        got = [int(sut.style_of(e)["fill"][1:], 16) - 0x100000 for e in root]
        rects = sut.colour_rects(root)
    require(got == paint, "boxes are painted in order %r instead of %r", got, paint)
    axis = 0 if spec["horizontal"] else 1
    placed = sorted(range(len(bx)), key=lambda i: rects[sut.colour(i)][0][axis])
    require(placed == stack, "boxes are stacked in order %r instead of %r", placed, stack)
    return ["nontrivial"] if paint != stack else []


SUITES = {"order": {"strategy": strategy, "check": check, "share": 0.7}, "stack": {"strategy": stack_strategy, "check": check_stack, "share": 0.3}}
CASES = {"quick": 7500, "thorough": 60000}
