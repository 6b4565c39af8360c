"""C25: the cache."""
import hashlib
import os
import shutil

from hypothesis import strategies as st

from vlib import decks, ink, sut
from vlib.core import judged, require
from props import c34

ID = "C25"
RULE = ("histories of 2-14 actions in one cache directory: up to 3 decks (also open at the same time) of 1-3 programs that share slides and LaTeX snippets (compiled by a stand-in), run by 3 Inkscapes (versions, text to path), rendered 1 or more times with every "
        "combination of export type, pruning, saving and subset, cache files deleted in between; drawings, exported files, the commands Inkscape received and the files left are compared with runs in an empty "
        "directory and a model of the two caches; non-trivial: two runs of programs that share a slide, or the same program run twice")
ASSUMPTIONS = ["exports and measurements come from a simulated Inkscape that is a function of the document, its version and text-to-path", "the version of elsie does not change"]
CASES = {"quick": 3000, "thorough": 24000}

POOL = decks.programs(kinds=("rect", "text", "text", "code", "png"), max_slides=4, min_slides=2, max_ops=3, item_share=0.75, positions=0.1, show=0.25)


@st.composite
def strategy_(draw, tier):
    pool = draw(POOL)
    n = len(pool["slides"])
    programs = draw(st.lists(st.lists(st.integers(0, n - 1), min_size=1, max_size=3), min_size=draw(st.integers(1, 2)), max_size=3))
    opens = st.fixed_dictionaries({"t": st.just("open"), "slot": st.integers(0, 2), "p": st.integers(0, len(programs) - 1), "ink": st.sampled_from([0, 0, 0, 0, 1, 2])})
    renders = st.fixed_dictionaries({"t": st.just("render"), "slot": st.integers(0, 2), "kind": st.sampled_from(["pdf", "pdf", "png", "document"]), "prune": st.booleans(), "save": st.sampled_from([True, True, False]),
                                     "select": st.one_of(st.none(), st.none(), st.integers(0, 2))})
    other = st.one_of(st.fixed_dictionaries({"t": st.just("delete"), "which": st.integers(0, 20)}), st.just({"t": "defaults", "slot": 0}))
    tex = draw(st.one_of(st.just([]), st.just([]), st.lists(st.lists(st.integers(0, 2), max_size=2), min_size=n, max_size=n)))
    return {"tex": tex, "pool": pool, "programs": programs, "actions": [draw(opens)] + draw(st.lists(st.one_of(opens, renders, renders, renders, other), min_size=draw(st.sampled_from([1, 4, 6])), max_size=12 if tier == "quick" else 24))}


def strategy(tier):
    return strategy_(tier)


TEX = ["$x$", "$y$", "\\frac{1}{2}"]


class Run:
    """A deck and what is known about it."""


def build(env, spec, a, cache_dir):
    import elsie
    from elsie.render.backends import InkscapeBackend

    prog = spec["pool"]
    r = Run()
    r.ink = ink.logged(env, a["ink"])
    r.variant = a["ink"]
    r.program = a["p"]
    r.deck = elsie.SlideDeck(backend=InkscapeBackend(inkscape=r.ink.shell, cache_dir=cache_dir), cache_dir=cache_dir, name_policy="ignore", **decks.deck_kwargs(prog))
    r.slides = []
    r.sources = set()
    before = len(env.shared["tex"].runs()) if spec.get("tex") else 0
    for s in spec["programs"][a["p"]]:
        r.slides.append(decks.build_slide(env, r.deck, prog, s)[0].slide)
        for k in spec["tex"][s] if spec.get("tex") else []:
            from elsie.ext.latex import latex

            latex(r.slides[-1].box(), TEX[k])
            r.sources.add(k)
    r.compiled = env.shared["tex"].runs()[before:].count("latex") if spec.get("tex") else 0
    r.queries, exports = r.ink.news()
    require(not exports, "exports while a deck is built")
    return r


def files(d):
    """{(digest, stamp, type): name} of the exports in a cache directory, and the other names."""
    out, other = {}, []
    for name in sorted(os.listdir(d)):
        ext = name.rsplit(".", 1)[-1]
        if name.startswith("cache.") and ext in ("pdf", "png"):
            key = ink.content_of(os.path.join(d, name)) + (ext,)
            require(key not in out, "%r and %r hold the same export", name, out.get(key))
            out[key] = name
        else:
            other.append(name)
    return out, other


def check(spec, env):
    labels = set()
    if spec.get("tex"):
        tex = c34.compilers(env)
        for k, t in enumerate(TEX):
            src = "%s\n%s\n%s" % (c34.HEADER, t, c34.TAIL)
            tex.provide(src.encode(), c34.svg_of(k, {"wh": [10 + k, 20], "unit": "pt", "ids": ["a"], "refs": [["use", 0, 0]]}))
        labels.add("latex")
    root = env.fresh_dir("cache")
    try:
        with judged("a history of runs"):
            return run(spec, env, root, labels)
    finally:
        env.drop(root)


def run(spec, env, root, labels):
    d = os.path.join(root, "c")
    os.makedirs(d)
    with open(os.path.join(d, "notes.txt"), "w") as f:
        f.write("keep")
    baselines = {}

    def baseline(a):
        key = (a["p"], a["ink"])
        if key not in baselines:
            b = os.path.join(root, "b")
            os.makedirs(b)
            r = build(env, spec, a, b)
            r.svgs = [u.get_svg() for u in sut.render_units(r.deck)]
            r.pages = [(len([0 for u in sut.render_units(r.deck, select_slides=[s])])) for s in r.slides]
            require(len(set(r.queries)) == len(r.queries), "a measurement was repeated within one run")
            shutil.rmtree(b)
            baselines[key] = r
        return baselines[key]

    # LaTeX snippets: name of the file -> (number of the snippet, Inkscape); other Inkscapes may share them or not
    snippets = {}

    def compiled():
        return {n: k for n, k in snippets.items() if os.path.isfile(os.path.join(d, n))}

    slots = {}
    stored = (None, set())  # version, queries
    history = []
    for a in spec["actions"]:
        if a["t"] == "delete":
            names = sorted(n for n in os.listdir(d) if n != "notes.txt")
            if names:
                name = names[a["which"] % len(names)]
                os.unlink(os.path.join(d, name))
                labels.add("deleted")
                if name == "queries3.cache":
                    stored = (None, set())
            continue
        if a["t"] == "open":
            base = baseline(a)
            stamp = ink.stamp(a["ink"])
            there = compiled()
            names = set(os.listdir(d))
            r = slots[a["slot"]] = build(env, spec, a, d)
            need = r.sources - {k for k, v in there.values() if v == stamp}
            none = r.sources - {k for k, _ in there.values()}
            require(len(none) <= r.compiled <= len(need), "%d snippets of LaTeX were compiled, expected %d", r.compiled, len(need))
            new = [n for n in os.listdir(d) if n not in names and n.endswith(".svg")]
            require(len(new) == r.compiled, "%d files for %d snippets", len(new), r.compiled)
            for n in new:
                with open(os.path.join(d, n)) as f:
                    text = f.read()
                snippets[n] = ([k for k in need if "data-mark=\"%d\"" % k in text][0], stamp)
            r.snippets = set(compiled())
            own = {k for k, v in compiled().values() if v == stamp}
            r.using = {n for n, (k, v) in compiled().items() if k in r.sources and (v == stamp or k not in own)}
            loaded = stored[1] if stored[0] == ink.VERSIONS[a["ink"]] else set()
            want = set(base.queries) - loaded
            require(set(r.queries) == want, "%d measurements, of which %d were already known and %d are missing", len(r.queries), len(set(r.queries) - want), len(want - set(r.queries)))
            require(len(set(r.queries)) == len(r.queries), "a measurement was repeated")
            r.own = loaded | want
            r.needed = set(base.queries)
            r.known = set(files(d)[0])
            r.touched = set()
            history.append(a["p"])
            labels.add("ink %d" % a["ink"])
            continue
        r = slots[sorted(slots)[a["slot"] % len(slots)]]
        base = baseline({"p": r.program, "ink": r.variant})
        if a["t"] == "defaults":
            a = {"kind": "pdf", "prune": True, "save": True, "select": None, "defaults": True}
        args = {} if a.get("defaults") else {"prune_cache": a["prune"], "save_cache": a["save"]}
        svgs = base.svgs
        if a["select"] is not None:
            i = a["select"] % len(r.slides)
            args["select_slides"] = [r.slides[i]]
            svgs = svgs[sum(base.pages[:i]):sum(base.pages[:i + 1])]
        units = r.deck.render(None, return_units=True, prune_cache=False, save_cache=False, **{k: v for k, v in args.items() if k == "select_slides"})
        got = [u.get_svg() for u in units]
        require(got == svgs, "%d of %d pages differ from those of a run in an empty directory", sum(x != y for x, y in zip(got, svgs)) + abs(len(got) - len(svgs)), len(svgs))
        before, _ = files(d)
        there = compiled()
        ran = len(env.shared["tex"].runs()) if spec.get("tex") else 0
        kind = "pdf" if a["kind"] == "document" else a["kind"]
        stamp = ink.stamp(r.variant)
        keys = [(hashlib.sha1(s.encode()).hexdigest(), stamp, kind) for s in svgs]
        if a["kind"] == "document":
            out = os.path.join(root, "out.pdf")
            r.deck.render(out, **args)
            from props.c23 import pages_of

            stamps = [[x.decode() for x in p[2]] for p in pages_of(out)]
            require(stamps == [[k[0]] for k in keys], "the document holds %r, expected %r", stamps, keys)
        else:
            res = r.deck.render(None, export_type=kind, pdf_merger=None, **args)
            require(len(res) == len(keys), "%d files for %d pages", len(res), len(keys))
            for i, (path, key) in enumerate(zip(res, keys)):
                require(os.path.isfile(path), "file %d of a render does not exist", i + 1)
                c = ink.content_of(path) + (kind,)
                require(c == key, "file %d holds the export %r, expected %r", i + 1, c, key)
        queries, exports = r.ink.news()
        require(not queries, "measurements while a deck is rendered")
        done = set()
        for sha, etype, to_path in exports:
            require(to_path == ink.TO_PATH[r.variant], "an export was made with text to path = %r", to_path)
            key = (sha, stamp, etype)
            require(key in keys, "an export of something else than the pages")
            require(key not in done, "a page was exported twice by one render")
            done.add(key)
        missing = set(keys) - set(before)
        require(missing <= done, "%d exports were not made although their files were missing", len(missing - done))
        again = done & set(before) & r.known
        require(not again, "%d pages were exported although their files were there", len(again))
        r.known |= set(keys)
        r.touched |= set(keys)
        want = set(before) | set(keys)
        left = set(there)
        if a["prune"]:
            left -= r.snippets - r.using
            r.snippets &= r.using
            want -= r.known - r.touched
            r.known &= r.touched
            r.own = set(r.needed)
            labels.add("pruned")
        if a["save"]:
            stored = (ink.VERSIONS[r.variant], set(r.own))
        after, other = files(d)
        require(set(after) == want, "%d files were left that were to be removed, %d were removed or are missing", len(set(after) - want), len(want - set(after)))
        got = set(compiled())
        require(got == left, "%d snippets were left that were to be removed, %d were removed or are missing", len(got - left), len(left - got))
        require(not spec.get("tex") or len(env.shared["tex"].runs()) == ran, "LaTeX was run while a deck was rendered")
        rest = [n for n in other if n not in ("notes.txt", "queries3.cache") and n not in got]
        require("notes.txt" in other and not rest, "files in the cache directory: %r", other)
        if done:
            labels.add("exports")
        if not missing:
            labels.add("all reused")
        elif set(keys) - missing:
            labels.add("some reused")
        labels.add(a["kind"])
    for i, p in enumerate(history):
        for q in history[:i]:
            if p == q or set(spec["programs"][p]) & set(spec["programs"][q]):
                labels.add("nontrivial")
    return sorted(labels)
