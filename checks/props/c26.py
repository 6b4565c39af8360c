"""C26: failed and killed runs."""
import json
import os

from hypothesis import strategies as st

from vlib import boot, decks, forked, ink, sut
from vlib.core import judged, require
from props import c21

ID = "C26"
RULE = ("programs with texts, code, images and an OpenRaster image on 1-3 slides, each run in a process of its own in one directory: an optional successful run, 1-3 failing runs (killed at any executed line of the code that "
        "handles files, exports or measurements that fail, Inkscape dying, cache files that cannot be opened, written, closed or renamed), then a working run; failing runs have to report an error and write no document, the working run "
        "has to give the drawings and files of a run in an empty directory; in-process retries likewise; non-trivial: a run failed after it had created a file")
ASSUMPTIONS = ["a kill loses what Python has not written yet and nothing else (no power failure)", "exports and measurements come from a simulated Inkscape that fails as told"]
CASES = {"quick": 700, "thorough": 9000}

POOL = decks.programs(kinds=("rect", "text", "text", "code", "png"), max_slides=3, max_ops=3, item_share=0.8, positions=0.1, show=0.25)
FAULT = st.one_of(
    st.fixed_dictionaries({"t": st.just("kill"), "at": st.integers(0, 1000)}),
    st.fixed_dictionaries({"t": st.just("kill"), "at": st.integers(0, 1000)}),
    st.fixed_dictionaries({"t": st.just("export"), "what": st.sampled_from(["none", "die", "die_partial", "die_after"]), "n": st.sampled_from([1, 1, 2, 3, 4])}),
    st.fixed_dictionaries({"t": st.just("query"), "what": st.sampled_from(["die", "garbage", "garbage2", "garbage3", "none"]), "n": st.sampled_from([1, 1, 2, 3, 5])}),
    st.fixed_dictionaries({"t": st.just("close"), "what": st.just("die_after"), "n": st.sampled_from([1, 2, 3, 5, 8])}),
    st.fixed_dictionaries({"t": st.just("file"), "op": st.sampled_from(["open", "write", "close", "replace"]), "n": st.sampled_from([1, 1, 2, 2, 3])}),
)


def strategy(tier):
    return st.fixed_dictionaries({"prog": POOL, "ora": st.booleans(), "row": st.integers(0, 3), "before": st.sampled_from([None, None, "same", "part"]),
                                  "faults": st.lists(FAULT, min_size=1, max_size=2 if tier == "quick" else 4), "kind": st.sampled_from(["document", "document", "pdf", "png"]),
                                  "prune": st.booleans(), "backend": st.sampled_from(["ink"] * 9 + ["cairo"])})


ORA = {"size": [9, 8], "newline": True, "root": {}, "sources": [{"w": 2, "h": 2, "pixels": [1, 2, 3, 5], "mode": "RGBA"}],
       "tree": [["layer", {"x": "1", "name": "a **2"}, 0], ["stack", {}, [["layer", {"y": "3", "opacity": "0.5"}, 0]]]]}


def program(env, spec, cache, out, part=False, backend=None, log=None):
    """Build and render; the result is a JSON value."""
    import elsie
    from elsie.render.backends import CairoBackend, InkscapeBackend

    prog = spec["prog"]
    if backend is None:
        if spec["backend"] == "ink":
            backend = InkscapeBackend(inkscape=boot.FAKE_INKSCAPE, cache_dir=cache)
        else:
            backend = CairoBackend(cache_dir=cache)
    deck = elsie.SlideDeck(backend=backend, cache_dir=cache, name_policy="ignore", **decks.deck_kwargs(prog))
    for s in range(1 if part else len(prog["slides"])):
        decks.build_slide(env, deck, prog, s)
    if spec.get("row"):
        # places that depend on measurements
        row = deck.new_slide().box(horizontal=True)
        for i in range(spec["row"]):
            b = row.box()
            b.rect(color="red")
            b.text("word" * (i + 1))
    if spec["ora"]:
        deck.new_slide().box(width=50).image(os.path.join(env.root, "c26.ora"))
    return render(deck, spec, out, log)


def render(deck, spec, out, log=None):
    args = {"prune_cache": spec["prune"]}
    svgs = [u.get_svg() for u in deck.render(None, return_units=True, prune_cache=False, save_cache=False)]
    if log is not None:
        log.append(deck)
    if spec["kind"] == "document":
        deck.render(out, **args)
        return {"svgs": svgs, "files": [], "document": document(out, spec)}
    res = deck.render(out, export_type=spec["kind"], pdf_merger=None, **args)
    return {"svgs": svgs, "files": [one(p, spec) for p in res], "document": None}


def one(path, spec):
    if spec["backend"] == "ink":
        return list(ink.content_of(path))
    with open(path, "rb") as f:
        data = f.read()
    return [data[:4].hex(), len(data) if spec["kind"] == "png" else 0]


def document(out, spec):
    from props.c23 import pages_of

    return [[p[0], p[1], [x.decode() for x in p[2]]] for p in pages_of(out)]


def set_plan(env, plan):
    path = os.path.join(env.root, "c26.plan")
    with open(path, "w") as f:
        json.dump(plan, f)
    os.environ["FAKE_INK_PLAN"] = path


def check(spec, env):
    root = env.fresh_dir("crash")
    labels = {spec["kind"], spec["backend"]}
    if spec["ora"]:
        c21.write(os.path.join(env.root, "c26.ora"), ORA, "ok")
    try:
        os.environ.pop("FAKE_INK_PLAN", None)
        with judged("runs with failures"):
            return run(spec, env, root, labels)
    finally:
        os.environ.pop("FAKE_INK_PLAN", None)
        env.drop(root)


def run(spec, env, root, labels):
    cache = os.path.join(root, "cache")
    os.makedirs(os.path.join(root, "empty"))
    os.makedirs(cache)
    out = os.path.join(root, "out.pdf")

    def dry():
        count = forked.crash_points()
        res = program(env, spec, os.path.join(root, "empty"), os.path.join(root, "ref.pdf"))
        return [res, count[0]]

    want, lines = forked.must(forked.run(dry), "a run in an empty directory")
    if spec["before"]:
        forked.must(forked.run(lambda: program(env, spec, cache, os.path.join(root, "before.pdf"), part=spec["before"] == "part")), "the first run")
    for fault in spec["faults"]:
        old = os.urandom(8)
        with open(out, "wb") as f:
            f.write(old)
        had = set(os.listdir(cache))
        if fault["t"] == "kill":
            def failing():
                forked.crash_points(1 + fault["at"] * lines // 1001)
                return program(env, spec, cache, out)
        elif fault["t"] == "file":
            def failing():
                count = forked.failing_files(cache, fault["op"], fault["n"])
                try:
                    res = program(env, spec, cache, out)
                except Exception:
                    if count[0] < fault["n"]:
                        raise RuntimeError("failed without a fault: %r" % (os.sys.exc_info()[1],))
                    raise
                return [res, count[0]]
        else:
            set_plan(env, {{"export": "exports", "query": "queries", "close": "closes"}[fault["t"]]: {str(fault["n"]): fault["what"]}})

            def failing():
                return program(env, spec, cache, out)
        r = forked.run(failing)
        os.environ.pop("FAKE_INK_PLAN", None)
        require(r.status != "hang", "a run with the fault %r did not finish", fault)
        if r.status == "ok":
            # The fault was not met
            require(fault["t"] != "file" or r.value[1] < fault["n"], "a run did not report that %r failed on a file of the cache", fault)
            res = r.value[0] if fault["t"] == "file" else r.value
            require(res == want, "a run in the directory of a failed run differs from one in an empty directory")
            labels.add("fault not met")
            continue
        if r.status == "killed":
            require(fault["t"] == "kill", "the process of a failing run died")
        else:
            require(fault["t"] != "kill", "a run after a failed one failed: %s", r.error)
            require("without a fault" not in (r.error or ""), "a run after a failed one failed: %s", r.error)
            with open(out, "rb") as f:
                require(f.read() == old, "a failing run wrote a document")
        labels.add("%s %s" % (fault["t"], fault.get("what") or fault.get("op") or ""))
        if set(os.listdir(cache)) - had:
            labels.add("nontrivial")
    res = forked.must(forked.run(lambda: program(env, spec, cache, out)), "the run after %s" % (json.dumps(spec["faults"]),))
    for key in ("svgs", "files", "document"):
        require(res[key] == want[key], "%s of the run after a failed one: %r, expected %r", key, trim(res[key]), trim(want[key]))
    return sorted(labels)


def trim(v):
    return json.dumps(v)[:300]


def retry_strategy(tier):
    return st.fixed_dictionaries({"prog": POOL, "ora": st.booleans(), "row": st.integers(0, 3), "kind": st.sampled_from(["document", "pdf", "png"]), "prune": st.booleans(), "backend": st.just("ink"),
                                  "fault": st.one_of(st.fixed_dictionaries({"t": st.just("export"), "n": st.sampled_from([1, 1, 2, 2, 3])}), st.fixed_dictionaries({"t": st.just("query"), "n": st.integers(1, 6), "what": st.sampled_from(["garbage", "garbage2", "garbage3", "none"])}),
                                                     st.fixed_dictionaries({"t": st.just("file"), "op": st.sampled_from(["open", "write", "replace"]), "n": st.integers(1, 3)}))})


def retry(spec, env):
    """The program is run again in the same process, and the deck is rendered again, with the same Inkscape."""
    root = env.fresh_dir("retry")
    fault = spec["fault"]
    if spec["ora"]:
        c21.write(os.path.join(env.root, "c26.ora"), ORA, "ok")
    cache, empty, out = os.path.join(root, "cache"), os.path.join(root, "empty"), os.path.join(root, "out.pdf")
    os.makedirs(cache)
    os.makedirs(empty)

    def attempt():
        from elsie.render.backends import InkscapeBackend

        want = program(env, spec, empty, out)
        os.unlink(out) if os.path.isfile(out) else None
        count = [0]
        if fault["t"] == "file":
            import builtins

            real = builtins.open, os.replace, os.rename
        else:
            set_plan(env, {"exports": {str(fault["n"]): "none"}} if fault["t"] == "export" else {"queries": {str(fault["n"]): fault.get("what", "garbage")}})
        backend = InkscapeBackend(inkscape=boot.FAKE_INKSCAPE, cache_dir=cache)
        log = []
        if fault["t"] == "file":
            count = forked.failing_files(cache, fault["op"], fault["n"])
        failed = None
        try:
            program(env, spec, cache, out, backend=backend, log=log)
        except Exception as e:
            failed = str(e)
        if fault["t"] == "file":
            builtins.open, os.replace, os.rename = real
        wrote = failed is not None and os.path.exists(out)
        again = []
        if log:
            again.append(render(log[0], spec, out))
        again.append(program(env, spec, cache, out, backend=backend))
        return [failed, wrote, [a == want for a in again], count[0]]

    try:
        with judged("a retry"):
            failed, wrote, same, count = forked.must(forked.run(attempt), "a retry after %r" % (fault,))
            require(not wrote, "a failing run wrote a document")
            require(fault["t"] != "file" or count < fault["n"] or failed is not None, "a run did not report that %r failed on a file of the cache", fault)
            require(all(same), "a retry with the same Inkscape differs from a run in an empty directory: %r", same)
    finally:
        os.environ.pop("FAKE_INK_PLAN", None)
        env.drop(root)
    return ["fault met", fault["t"], "nontrivial"] if failed else ["fault not met"]


SUITES = {"processes": {"strategy": strategy, "check": check, "share": 0.7}, "retry": {"strategy": retry_strategy, "check": retry, "share": 0.3}}
