"""C24: name policies."""
import os

from hypothesis import strategies as st

from vlib import decks, sut
from vlib.core import expect_reject, judged, require

ID = "C24"
RULE = ("histories of 1-14 actions on a deck of each policy: slides made by new_slide and the decorator with and without names (equal, empty, odd and non-string ones), raw PDFs, malformed arguments and renders; "
        "after each action the slides, their order and contents and every lookup are compared with a list model; non-trivial: a name is used twice")
ASSUMPTIONS = ["outside of a notebook 'auto' means 'ignore'"]
CASES = {"quick": 8500, "thorough": 60000}

NAMES = ["a", "b", "", "A", "x y", "\u010d<&", "made", "slide", "a ", "None", "0"]
NAME = st.one_of(st.none(), st.sampled_from(NAMES), st.sampled_from(NAMES[:4]), st.sampled_from(NAMES[:2]), st.sampled_from([3, 0, 1.5, True, ["a"], {"a": 1}]))
ACTION = st.one_of(
    st.fixed_dictionaries({"t": st.just("new"), "name": NAME, "boxes": st.lists(st.sampled_from([None, 1, 2]), min_size=1, max_size=2), "bad": st.sampled_from([False] * 7 + [True])}),
    st.fixed_dictionaries({"t": st.just("new"), "name": st.sampled_from(NAMES[:4]), "boxes": st.lists(st.sampled_from([None, 1, 2]), min_size=1, max_size=2), "bad": st.just(False)}),
    st.fixed_dictionaries({"t": st.just("decorator"), "name": NAME, "fn": st.sampled_from(["made", "slide", "a", "b", "made2"])}),
    st.just({"t": "pdf"}),
    st.just({"t": "render"}),
)


def strategy(tier):
    return st.fixed_dictionaries({"policy": st.sampled_from(["unique", "replace", "replace", "ignore", "auto", None, "unknown"]), "bg": st.booleans(),
                                  "actions": st.lists(ACTION, min_size=1, max_size=14 if tier == "quick" else 30)})


def check(spec, env):
    labels = {str(spec["policy"])}
    policy = spec["policy"]
    if policy == "unknown":
        for p in ("unknown", "", "Unique", 1, ("unique",)):
            expect_reject("name policy %r" % (p,), lambda: sut.make_deck(env, name_policy=p))
        return sorted(labels)
    with judged("a deck with names"):
        kw = {} if policy is None else {"name_policy": policy}
        if policy is None:
            import elsie
            from elsie.render.backends import InkscapeBackend

            d = sut.case_dir(env)
            deck = elsie.SlideDeck(backend=InkscapeBackend(inkscape=sut.shell(env), cache_dir=d), cache_dir=d)
        else:
            deck = sut.make_deck(env, **kw)
        model = []  # {"name", "marks": [[show, mark]] or None, "slide"}
        count = [0]
        used = set()
        for a in spec["actions"]:
            labels.add(a["t"])
            if a["t"] == "pdf":
                deck.add_pdf(decks.asset(env, ".pdf", "%PDF raw"))
                model.append({"name": None, "marks": None, "slide": None})
            elif a["t"] == "render":
                pass
            else:
                name = a["name"]
                if a["t"] == "decorator" and name is None:
                    name = a["fn"]
                count[0] += 1
                first = count[0] * 4
                ok = True
                if policy in ("unique", "replace"):
                    if name is None:
                        ok = policy == "unique"
                    elif not isinstance(name, str):
                        ok = False
                    elif policy == "unique":
                        ok = all(m["name"] != name for m in model)
                bad = a["t"] == "new" and a["bad"]
                ran = []

                def fill(box, shows):
                    for i, show in enumerate(shows):
                        box.box(width=9, height=9, **({} if show is None else {"show": show})).rect(bg_color=sut.colour(first + i))

                def add():
                    if a["t"] == "new":
                        box = deck.new_slide(**dict({} if name is None and count[0] % 2 else {"name": name}, **({"view_box": (1, 2, 3)} if bad else {})))
                        fill(box, a["boxes"])
                        return box.slide

                    def body(box):
                        ran.append(box)
                        fill(box, [None])

                    body.__name__ = a["fn"]
                    return (deck.slide() if a["name"] is None else deck.slide(name))(body)

                if bad or not ok:
                    expect_reject("a slide named %r (policy %s, existing %r%s)" % (name, policy, [m["name"] for m in model], ", malformed view box" if bad else ""), add)
                    require(not ran, "the decorated function was called for a rejected slide")
                    labels.add("rejected")
                else:
                    slide = add()
                    require(slide.name == name, "a slide named %r has name %r", name, slide.name)
                    if policy == "replace":
                        model = [m for m in model if m["name"] != name]
                    model.append({"name": name, "marks": [(s, first + i) for i, s in enumerate(a["boxes"] if a["t"] == "new" else [None])], "slide": slide})
                if isinstance(name, str):
                    if name in used:
                        labels.add("nontrivial")
                    used.add(name)
            for n in NAMES + ["made2", "nosuch"]:
                got = deck.get_slide_by_name(n)
                want = [m for m in model if isinstance(m["name"], str) and m["name"] == n]
                want = want[0]["slide"] if want else None
                require(got is want, "lookup of %r gives %s, expected %s", n, [i for i, m in enumerate(model) if m["slide"] is got and got is not None], want and "the first of that name")
            if not model:
                continue
            pages = []
            for m in model:
                if m["marks"] is None:
                    pages.append(None)
                    continue
                for step in range(1, max([1] + [s for s, _ in m["marks"] if s]) + 1):
                    pages.append([k for s, k in m["marks"] if s is None or s == step])
            got = []
            for u in sut.render_units(deck):
                svg = u.get_svg()
                got.append(None if svg is None else [decks.mark_of(e) for e in sut.parse_svg(svg)])
            require(got == pages, "pages show %r, expected %r", got, pages)
    return sorted(labels)
