"""C20: fragments inside of SVG images."""
from hypothesis import strategies as st

from vlib import decks, sut
from vlib.core import judged, require

ID = "C20"
RULE = ("SVG trees (depth up to 4, 2-14 elements, texts between them, comments) with labels of every selector form at any level; 1-4 uses of 1-2 such files on 1-2 slides with any fragments, show_begin and "
        "select_fragments, in boxes with their own selectors; elements, texts and order drawn in every fragment and the number of fragments are compared with a model; "
        "non-trivial: two labelled elements, or a labelled one used with show_begin or select_fragments")
ASSUMPTIONS = ["labels after '**' are valid selectors without 'next' and 'last'", "select_fragments is not combined with fragments=False", "the root element has no fragment label"]
CASES = {"quick": 7500, "thorough": 60000}

SELECTOR = st.one_of(
    st.integers(1, 4).map(str),
    st.integers(1, 4).map(lambda v: "%d+" % v),
    st.tuples(st.integers(1, 3), st.integers(0, 2)).map(lambda t: "%d-%d" % (t[0], t[0] + t[1])),
    st.lists(st.integers(1, 5), min_size=2, max_size=3).map(lambda v: ",".join(map(str, v))),
    st.tuples(st.integers(1, 2), st.integers(3, 5)).map(lambda t: "%d, %d+" % t),
)
LABEL = st.one_of(st.none(), st.none(), st.sampled_from(["Layer 1", "a*b", "2+", "* *3"]),
                  st.tuples(st.sampled_from(["", "x", "Layer 2 ", "a*b"]), SELECTOR, st.sampled_from(["", "", "", "** note", "**9"])).map(lambda t: t[0] + "**" + t[1] + t[2]))


@st.composite
def nodes(draw, level, budget):
    out = []
    for _ in range(draw(st.integers(1 if level == 0 else 0, 4))):
        if budget[0] <= 0:
            break
        kind = draw(st.integers(0, 9))
        if kind < 2:
            out.append(draw(st.sampled_from(["t", " u ", "\n  ", "v&w"])))
            continue
        if kind == 2:
            out.append(None)  # a comment
            continue
        budget[0] -= 1
        label = draw(LABEL)
        out.append([draw(st.sampled_from(["g", "rect", "text", "tspan"])), label, draw(nodes(level + 1, budget)) if level < 3 else []])
    return out


@st.composite
def use(draw, files):
    v = {"file": draw(st.integers(0, files - 1)), "kw": {}, "show": draw(st.one_of(st.none(), st.none(), st.none(), SELECTOR)), "slide": draw(st.integers(0, 1))}
    how = draw(st.integers(0, 3))
    if how == 1:
        v["kw"]["fragments"] = draw(st.booleans())
    if how == 2:
        v["kw"]["select_fragments"] = draw(st.lists(st.one_of(st.none(), st.integers(1, 5)), min_size=1, max_size=5))
    if draw(st.integers(0, 2)) == 0:
        v["kw"]["show_begin"] = draw(st.integers(1, 4))
    return v


@st.composite
def strategy_(draw, tier):
    files = draw(st.lists(st.integers(0, 0).flatmap(lambda _: nodes(0, [14 if tier == "quick" else 30])), min_size=1, max_size=2))
    return {"files": files, "uses": draw(st.lists(use(len(files)), min_size=1, max_size=4))}


def strategy(tier):
    return strategy_(tier)


def printed(ns, count):
    out = []
    for n in ns:
        if isinstance(n, str):
            out.append(n.replace("&", "&amp;"))
        elif n is None:
            out.append("<!-- c -->")
        else:
            count[0] += 1
            i = count[0]
            label = "" if n[1] is None else " ink:label='%s'" % n[1]
            out.append("<%s id='e%d' class='e%d'%s>%s</%s>" % (n[0], i, i, label, printed(n[2], count), n[0]))
    return "".join(out)


def source(ns, i):
    return ("<svg xmlns='http://www.w3.org/2000/svg' xmlns:ink='http://www.inkscape.org/namespaces/inkscape' width='20' height='10' id='file%d' class='file%d'>%s</svg>" % (i, i, printed(ns, [0])))


def selector(label):
    if label is None or "**" not in label:
        return None
    return decks.selection(label.split("**")[1], 1)


def labelled(ns):
    return [s for n in ns if isinstance(n, list) for s in [selector(n[1])] + labelled(n[2]) if s is not None]


def visible(ns, step):
    """[text or [tag, id, content]] of a fragment; None for step shows all."""
    count = [0]

    def walk(ns, hidden):
        out = []
        for n in ns:
            if isinstance(n, str):
                if out and isinstance(out[-1], str):
                    out[-1] += n
                else:
                    out.append(n)
            elif n is None:
                continue
            else:
                count[0] += 1
                i = count[0]
                s = selector(n[1])
                gone = step is not None and s is not None and not decks.selected(s, step)
                inner = walk(n[2], hidden or gone)
                if not gone:
                    out.append([n[0], "e%d" % i, inner])
        return out

    return walk(ns, False)


def content(e):
    out = []

    def text(t):
        if t:
            if out and isinstance(out[-1], str):
                out[-1] += t
            else:
                out.append(t)

    text(e.text)
    for c in e:
        if isinstance(c.tag, str):
            out.append([sut.local(c), c.get("class"), content(c)])
        text(c.tail)
    return out


def check(spec, env):
    with judged("images with fragments"):
        deck = sut.make_deck(env, width=400, height=300)
        paths = [decks.asset(env, ".svg", source(ns, i)) for i, ns in enumerate(spec["files"])]
        slides = [deck.new_slide(), deck.new_slide()]
        for u in spec["uses"]:
            box = slides[u["slide"]].box(width=40, height=20, **({} if u["show"] is None else {"show": u["show"]}))
            box.image(paths[u["file"]], **u["kw"])
        want_pages = []
        for k in range(2):
            uses = [u for u in spec["uses"] if u["slide"] == k]
            steps = 1
            for u in uses:
                kw = u["kw"]
                if u["show"] is not None:
                    steps = max(steps, decks.named(decks.selection(u["show"], 1)))
                if "select_fragments" in kw:
                    need = len(kw["select_fragments"])
                elif kw.get("fragments", True):
                    need = max([1] + [decks.named(s) for s in labelled(spec["files"][u["file"]])])
                else:
                    need = 1
                steps = max(steps, need + kw.get("show_begin", 1) - 1)
            for step in range(1, steps + 1):
                page = []
                for u in uses:
                    kw = u["kw"]
                    if u["show"] is not None and not decks.selected(decks.selection(u["show"], 1), step):
                        continue
                    own = step - kw.get("show_begin", 1) + 1
                    if own < 1:
                        continue
                    if "select_fragments" in kw:
                        sel = kw["select_fragments"]
                        own = sel[own - 1] if own <= len(sel) else None
                        if own is None:
                            continue
                    elif not kw.get("fragments", True):
                        own = None
                    page.append(["svg", "file%d" % u["file"], visible(spec["files"][u["file"]], own)])
                want_pages.append((k, step, page))
        for turn in (1, 2):
            units = sut.render_units(deck)
            require(len(units) == len(want_pages), "%d pages, expected %r", len(units), [(k, n) for k, n, _ in want_pages])
            for u, (k, step, page) in zip(units, want_pages):
                root = sut.parse_svg(u.get_svg())
                got = []
                for g in root:
                    require(sut.local(g) == "g", "<%s> drawn", sut.local(g))
                    (e,) = list(g)
                    got.append([sut.local(e), e.get("class"), content(e)])
                require(got == page, "fragment %d of slide %d shows %r, expected %r", step, k, got, page)
    labels = set()
    total = 0
    for u in spec["uses"]:
        n = len(labelled(spec["files"][u["file"]]))
        total += n
        for key in u["kw"]:
            labels.add(key)
            if n and key != "fragments":
                labels.add("nontrivial")
    if total >= 2:
        labels.add("nontrivial")
    labels.add("%d fragments" % max(n for _, n, _ in want_pages))
    return sorted(labels)
