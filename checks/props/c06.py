"""C06: number of fragments, current_fragment()."""
from hypothesis import strategies as st

from vlib import decks, sut
from vlib.core import judged, require

ID = "C06"
RULE = ("sequences of 2-16 operations over 1-3 interleaved slides: boxes with selectors (also inside hidden boxes), images with labels, show_begin, select_fragments or fragments=False, "
        "list items, reading current_fragment() of the slide or of any box; a counter model is compared after every operation and the fragments of the rendered "
        "deck at the end; non-trivial: two slides, or an image, list or placeholder changed a counter")
ASSUMPTIONS = []
CASES = {"quick": 7500, "thorough": 60000}

LABEL = st.one_of(st.integers(1, 5).map(lambda v: "**%d" % v), st.integers(1, 4).map(lambda v: "**%d+" % v), st.just("**1-3"), st.just("a**2,4"), st.just("plain"),
                  st.just("x**2+**y"))


@st.composite
def op(draw, n_slides):
    s = draw(st.integers(0, n_slides - 1))
    t = draw(st.sampled_from(["box", "box", "box", "image", "read", "list", "text"]))
    o = {"t": t, "s": s, "p": draw(st.integers(0, 20))}
    if t == "box":
        o["show"] = draw(st.one_of(st.none(), decks.SELECT, decks.SELECT, st.integers(1, 9).map(str), st.integers(6, 12).map(lambda v: "%d+" % v)))
        o["via"] = draw(st.booleans())
    elif t == "image":
        o["labels"] = draw(st.lists(LABEL, max_size=3))
        o["begin"] = draw(st.integers(1, 4))
        o["fragments"] = draw(st.sampled_from([True, True, False]))
        o["select"] = draw(st.one_of(st.none(), st.none(), st.lists(st.one_of(st.none(), st.integers(1, 4)), max_size=5)))
    elif t == "list":
        o["n"] = draw(st.integers(1, 3))
        o["show"] = draw(st.sampled_from(["default", "next+", "next", "2+", "last+"]))
    return o


@st.composite
def strategy_(draw, tier):
    n = draw(st.integers(1, 3))
    return {"n": n, "ops": draw(st.lists(op(n), min_size=2, max_size=16 if tier == "quick" else 30))}


def strategy(tier):
    return strategy_(tier)


def svg(labels):
    ns = "xmlns='http://www.w3.org/2000/svg' xmlns:inkscape='http://www.inkscape.org/namespaces/inkscape'"
    return "<svg %s width='10' height='10'>%s</svg>" % (ns, "".join("<g inkscape:label='%s'><rect width='%d' height='1'/></g>" % (la, i + 1) for i, la in enumerate(labels)))


def label_steps(label):
    if "**" not in label:
        return 1
    sel = decks.selection(label.split("**")[1], 1)
    return decks.named(sel)


def check(spec, env):
    labels = set()
    with judged("an operation sequence"):
        from elsie.ext import unordered_list

        deck = sut.make_deck(env, width=300, height=200)
        slides = [deck.new_slide() for _ in range(spec["n"])]
        boxes = [[s] for s in slides]
        count = [1] * spec["n"]
        hidden_ok = 0
        for o in spec["ops"]:
            s = o["s"]
            owner = boxes[s][o["p"] % len(boxes[s])]
            if o["t"] == "box":
                target = owner.rect(color="red") if o.get("via") else owner
                sel = decks.selection(o["show"], count[s])
                boxes[s].append(target.box(show=o["show"]))
                count[s] = max(count[s], decks.named(sel))
                if isinstance(o["show"], str) and ("next" in o["show"] or "last" in o["show"]):
                    labels.add("placeholder")
            elif o["t"] == "image":
                path = decks.asset(env, ".svg", svg(o["labels"]))
                owner.image(path, fragments=o["fragments"], show_begin=o["begin"], select_fragments=o["select"])
                if o["select"] is not None:
                    need = len(o["select"])
                elif o["fragments"]:
                    need = max([1] + [label_steps(la) for la in o["labels"]])
                else:
                    need = 1
                count[s] = max(count[s], o["begin"] - 1 + need)
                labels.add("image")
            elif o["t"] == "list":
                lst = unordered_list(owner.box())
                for _ in range(o["n"]):
                    kw = {} if o["show"] == "default" else {"show": o["show"]}
                    boxes[s].append(lst.item(**kw))
                    if o["show"] == "2+":
                        count[s] = max(count[s], 2)
                    elif o["show"].startswith("next"):
                        count[s] += 1
                labels.add("list")
            elif o["t"] == "text":
                owner.text("abc")
            for i in range(spec["n"]):
                for b in (slides[i], boxes[i][-1], boxes[i][o["p"] % len(boxes[i])]):
                    got = b.current_fragment()
                    require(got == count[i], "after %r the current fragment of slide %d is %r instead of %d", o, i, got, count[i])
        units = sut.render_units(deck)
        got = [(u.slide, u.step) for u in units]
        want = [(slides[i].slide, f) for i in range(spec["n"]) for f in range(1, count[i] + 1)]
        require(len(got) == len(want), "%d pages instead of %r", len(got), count)
        for (gs, gf), (ws, wf) in zip(got, want):
            require(gs is ws and gf == wf, "fragments are numbered %r, expected %r", [x[1] for x in got], [x[1] for x in want])
    if spec["n"] > 1 or labels:
        labels.add("nontrivial")
    return sorted(labels)
