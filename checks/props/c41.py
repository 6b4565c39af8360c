"""C41: decks in debug mode."""
import os

from hypothesis import strategies as st

from vlib import cairo_util, decks, sut
from vlib.core import judged, require
from props import c23

ID = "C41"
RULE = ("decks of 1-5 slides with every drawing feature, fragments, names that repeat under the policies ignore and replace, raw PDFs, grids, subsets, both backends and both mergers are made twice, with debug=True and without, and rendered 1-2 times (also with a slide added or replaced in between); "
        "units, documents, exports and cache files must be equal, and the cache directory must have one more file for each drawn page of the latest rendering, which holds its drawing; non-trivial: three different drawings, or a replaced slide")
ASSUMPTIONS = ["exports of Inkscape come from a simulated Inkscape that stamps a digest of the drawing into each", "a replaced slide is not rendered any more"]
CASES = {"quick": 2200, "thorough": 40000}


@st.composite
def rendering(draw, cairo, raw):
    kind = draw(st.sampled_from(["units", "units", "pdf", "list"] + ([] if raw else ["png"])))
    return {"kind": kind, "merger": draw(st.sampled_from(["pypdf", "pdfunite"])), "prune": draw(st.booleans()), "select": draw(st.one_of(st.none(), st.none(), st.lists(st.integers(0, 7), min_size=1, max_size=4))),
            "grid": None if cairo or raw or draw(st.integers(0, 2)) else [draw(st.integers(1, 3)), draw(st.integers(1, 2))]}


@st.composite
def strategy_(draw, tier):
    cairo = draw(st.integers(0, 9)) == 0
    prog = draw(decks.programs(max_slides=5, max_ops=5 if tier == "quick" else 12, fit=True, show=0.3, z=0.1, bg=0.3, view_box=0.1, item_share=0.5))
    policy = draw(st.sampled_from(["replace", "replace", "replace", "ignore", "unique"]))
    raw = draw(st.integers(0, 3)) == 0
    for k, s in enumerate(prog["slides"]):
        s["name"] = draw(st.sampled_from(["a", "b", "c"])) if policy != "unique" else "s%d" % k
        s["raw"] = raw and draw(st.integers(0, 3)) == 0
        s["render"] = draw(st.integers(0, 3)) == 0
        s["rendering"] = draw(rendering(cairo, raw))
    prog["slides"][-1]["render"] = True
    prog["policy"], prog["cairo"], prog["stale"] = policy, cairo, draw(st.booleans())
    return prog


def strategy(tier):
    return strategy_(tier)


def contents(path):
    with open(path, "rb") as f:
        return f.read()


def run(env, prog, debug):
    """The results of the renderings, each with its pages and the files next to the cache."""
    work = env.fresh_dir("debug")
    cache = os.path.join(work, "cache")
    out = []
    os.makedirs(cache)
    if prog["stale"]:
        # left by an earlier run
        with open(os.path.join(cache, "cache.%040x.pdf" % 7), "wb") as f:
            f.write(b"stale")
    try:
        deck = sut.make_deck(env, cache_dir=cache, backend="cairo" if prog["cairo"] else None, debug=debug, name_policy=prog["policy"], **decks.deck_kwargs(prog))
        present = []
        for s, conf in enumerate(prog["slides"]):
            if conf["raw"]:
                p = os.path.join(work, "raw%d.pdf" % s)
                with open(p, "wb") as f:
                    f.write(c23.raw_pdf(s % 4))
                deck.add_pdf(p)
            made = []

            def new(**kw):
                made.append(deck.new_slide(conf["name"], **kw))
                return made[0]

            decks.build_slide(env, deck, prog, s, new)
            if prog["policy"] == "replace":
                present = [x for x in present if x[0] != conf["name"]]
            present.append((conf["name"], made[0].slide))
            if not conf["render"]:
                continue
            r = conf["rendering"]
            kw = {"prune_cache": r["prune"]}
            if r["select"] is not None:
                kw["select_slides"] = list(dict.fromkeys(present[i % len(present)][1] for i in r["select"]))
            if prog["cairo"] and r["kind"] == "png":
                kw["export_type"] = "png"
            pages = [u.get_svg() for u in sut.render_units(deck, **kw)]
            if r["grid"]:
                kw["slides_per_page"] = tuple(r["grid"])
            before = {n: contents(os.path.join(cache, n)) for n in os.listdir(cache)}
            for n in before:
                if n.endswith(".svg") and not n.startswith("cache."):
                    os.unlink(os.path.join(cache, n))
            if r["kind"] == "units":
                result = [u.get_svg() or (cairo_util.pixels(u) if prog["cairo"] and kw.get("export_type") == "png" else None) for u in sut.render_units(deck, **kw)]
            elif r["kind"] == "pdf":
                doc = os.path.join(work, "out.pdf")
                deck.render(doc, pdf_merger=r["merger"], **kw)
                result = len(c23.pages_of(doc)) if prog["cairo"] else [[list(map(float, p[:2])), p[2]] for p in c23.pages_of(doc)]
            else:
                kw.setdefault("export_type", "png" if r["kind"] == "png" else "pdf")
                names = deck.render(os.path.join(work, "none"), pdf_merger=None, **kw)
                result = len(names) if prog["cairo"] else [contents(n) for n in names]
            after = {n: contents(os.path.join(cache, n)) for n in os.listdir(cache)}
            extra = {n: after[n] for n in after if n.endswith(".svg") and not n.startswith("cache.")}
            rest = {n: after[n] for n in after if n not in extra and n != "queries3.cache"}
            out.append((result, [p for p in pages if p is not None], extra, len(rest) if prog["cairo"] else rest))
    finally:
        env.drop(work)
    return out


def check(prog, env):
    with judged("a deck"):
        plain = run(env, prog, False)
    with judged("a deck in debug mode"):
        debug = run(env, prog, True)
    labels = {prog["policy"], "cairo" if prog["cairo"] else "ink"}
    for i, (a, b) in enumerate(zip(plain, debug)):
        where = "rendering %d" % (i + 1)
        require(a[1] == b[1], "%s: the drawings differ in debug mode", where)
        require(a[0] == b[0], "%s: the result differs in debug mode", where)
        require(a[3] == b[3], "%s: the files of the cache differ in debug mode", where)
        require(not a[2], "%s: drawings without debug mode: %s", where, sorted(a[2]))
        want, got = sorted(b[1]), sorted(x.decode("utf-8") for x in b[2].values())
        require(len(want) == len(got), "%s: %d drawings (%s) for %d drawn pages", where, len(got), sorted(b[2]), len(want))
        require(want == got, "%s: the drawings kept in debug mode are not those of the pages", where)
        if len(set(want)) >= 3:
            labels.add("nontrivial")
        labels.add(prog["slides"][0]["rendering"]["kind"])
    names = [s["name"] for s in prog["slides"]]
    if prog["policy"] == "replace" and len(set(names)) < len(names):
        labels |= {"replaced slide", "nontrivial"}
    if any(s["raw"] for s in prog["slides"]):
        labels.add("raw PDF")
    return sorted(labels)
