"""C07: fragments only hide or show."""
import copy
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from vlib import decks, sut
from vlib.core import judged, require

ID = "C07"
RULE = ("random slides with every kind of content are built without selectors and with two assignments of selectors (and images that begin later or are picked in some fragments); each fragment must consist of exactly the elements of the "
        "selector-free drawing that belong to visible boxes, in the same order and literally the same; non-trivial: some fragment hides some but not all of at least 3 items")
ASSUMPTIONS = []
CASES = {"quick": 5500, "thorough": 45000}


@st.composite
def strategy_(draw, tier):
    prog = draw(decks.programs(max_slides=1, max_ops=12 if tier == "quick" else 20, fit=True, show=0.0, z=0.1, prepend=0.1, rel=0.1, bg=0.2, item_share=0.5))
    n = len(prog["slides"][0]["ops"])
    prog["select"] = [[draw(st.one_of(st.none(), decks.SELECT)) for _ in range(n)] for _ in range(2)]
    prog["slides"][0]["debug"] = draw(st.integers(0, 4)) == 0
    return prog


def strategy(tier):
    return strategy_(tier)


def elements(root):
    out = []
    last = None
    for e in root:
        # the outlines and names of debug boxes are those of C33
        if isinstance(e.tag, str) and "#ff00ff" not in ET.tostring(e, "unicode"):
            m = decks.mark_of(e)
            out.append((m, decks.canonical(e)))
    return out


def plain(prog):
    """The program without anything that depends on fragments."""
    prog = copy.deepcopy(prog)
    for op in prog["slides"][0]["ops"]:
        if op["t"] == "item" and op["what"] == "svg":
            op["v"]["begin"] = 1
            op["v"]["pick"] = None
    return prog


def check(prog, env):
    with judged("rendering a valid deck"):
        base = elements(sut.svgs(decks.build(env, plain(prog)))[0])
    labels = set()
    for select in prog["select"]:
        p2 = copy.deepcopy(prog)
        for op, s in zip(p2["slides"][0]["ops"], select):
            if op["t"] == "box" and s is not None:
                op["args"]["show"] = s
        model = decks.SlideModel(p2, 0)
        with judged("rendering a valid deck"):
            roots = sut.svgs(decks.build(env, p2))
        by_set = {}
        for f, root in enumerate(roots, 1):
            visible = set(model.painted_marks(f))
            want = [x for x in base if x[0] in visible]
            got = elements(root)
            if got != want:
                diff = [(a, b) for a, b in zip(got, want) if a != b]
                require(False, "fragment %d of %d with selectors %r differs from the drawing without selectors: %d elements instead of %d, first difference %s",
                        f, len(roots), select, len(got), len(want), diff[:1])
            key = tuple(sorted(map(str, visible)))
            require(by_set.setdefault(key, got) == got, "fragments showing the same boxes differ")
            if 0 < len(visible) < len(base) and len(base) >= 3:
                labels.add("nontrivial")
    return sorted(labels)
