"""C27: the dialogue with Inkscape."""
import hashlib
import json
import os

from hypothesis import strategies as st

from vlib import boot, ink
from vlib.core import Hang, Violation, alarm, close, expect_reject, judged, require

ID = "C27"
RULE = ("dialogues of 1-20 queries, exports and version requests on 1-4 documents with one or two simulated Inkscapes that print additional lines, flood the error output, give no number or no file, or terminate at a chosen point; "
        "each answer and file is compared with the one for its own document, each failure has to be reported in time and must not disturb what follows; non-trivial: a fault was met and operations followed, or 6 operations")
ASSUMPTIONS = ["Inkscape prints a prompt after each command and never prints '> ' at the start of another line"]
CASES = {"quick": 4500, "thorough": 30000}

NUM = st.one_of(st.integers(0, 500), st.integers(-4000, 4000).map(lambda v: v / 8), st.just(0.000001), st.just(123456789))
DOC = st.lists(st.tuples(NUM, NUM, NUM).map(list), min_size=1, max_size=3)
OP = st.one_of(
    st.fixed_dictionaries({"t": st.sampled_from(["width", "height", "x"]), "shell": st.integers(0, 1), "doc": st.integers(0, 3), "id": st.integers(0, 2)}),
    st.fixed_dictionaries({"t": st.sampled_from(["width", "height", "x"]), "shell": st.just(0), "doc": st.integers(0, 3), "id": st.integers(0, 2)}),
    st.fixed_dictionaries({"t": st.just("export"), "shell": st.integers(0, 1), "doc": st.integers(0, 3), "type": st.sampled_from(["pdf", "png", "pdf"])}),
    st.fixed_dictionaries({"t": st.just("missing"), "shell": st.integers(0, 1), "doc": st.integers(0, 3)}),
    st.fixed_dictionaries({"t": st.just("version"), "shell": st.integers(0, 1)}),
)
N = st.sampled_from(["1", "1", "2", "2", "3", "4", "6"])
PLAN = st.fixed_dictionaries({
    "queries": st.dictionaries(N, st.sampled_from(["noise", "noise8", "flood", "prompt", "garbage", "garbage2", "garbage3", "none", "die"]), max_size=3),
    "exports": st.dictionaries(N, st.sampled_from(["noise", "noise8", "flood", "none", "die", "die_partial", "die_after"]), max_size=2),
    "opens": st.dictionaries(N, st.sampled_from(["noise", "noise8", "flood", "die"]), max_size=2),
    "stderr_start": st.sampled_from([0, 0, 0, 300000]),
    "version": st.sampled_from(["Inkscape 1.2.2 (b0a8486541, 2022-12-01)", "Inkscape 1.0", "Inkscape 0.92", "foo"]),
})


def strategy(tier):
    return st.fixed_dictionaries({"docs": st.lists(DOC, min_size=1, max_size=4), "ops": st.lists(OP, min_size=1, max_size=20 if tier == "quick" else 40), "plans": st.lists(PLAN, min_size=1, max_size=2),
                                  "to_path": st.booleans()})


def svg(doc, i):
    return "<svg xmlns='http://www.w3.org/2000/svg' width='%d' height='10'><!-- \u010d %d -->%s</svg>" % (
        100 + i, i, "".join("<rect id='%s' x='%r' width='%r' height='%r'/>" % (ident(k), x, w, h) for k, (x, w, h) in enumerate(doc)))


def ident(k):
    return ["target", "a-b", "t2"][k]


def check(spec, env):
    d = env.fresh_dir("talk")
    shells = []
    try:
        with alarm(30):
            with judged("a dialogue"):
                return talk(spec, d, shells)
    except Hang:
        raise Violation("an operation waited for Inkscape for more than 20 s")
    finally:
        for s in shells:
            s.process.kill()
            s.process.wait()
            for stream in (s.process.stdin, s.process.stdout):
                try:
                    stream.close()
                except OSError:
                    pass  # what was written after it terminated
        env.drop(d)


def start(spec, d, i):
    from elsie.render.inkscape import InkscapeShell

    path = os.path.join(d, "plan%d" % i)
    with open(path, "w") as f:
        json.dump(spec["plans"][i], f)
    os.environ["FAKE_INK_PLAN"] = path
    try:
        return InkscapeShell(boot.FAKE_INKSCAPE, text_to_path=spec["to_path"])
    finally:
        del os.environ["FAKE_INK_PLAN"]


def talk(spec, d, shells):
    from elsie.render.inkscape import export_by_inkscape

    docs = [svg(doc, i) for i, doc in enumerate(spec["docs"])]
    for i in range(len(spec["plans"])):
        shells.append(start(spec, d, i))
    n = [{"query": 0, "export": 0, "open": 0} for _ in shells]
    dead = [False] * len(shells)
    labels = set()
    after = 0
    for k, op in enumerate(spec["ops"]):
        i = op["shell"] % len(shells)
        shell, plan = shells[i], spec["plans"][i]

        def fault(kind):
            n[i][kind] += 1
            return plan[{"query": "queries", "export": "exports", "open": "opens"}[kind]].get(str(n[i][kind]))

        if op["t"] == "version":
            if dead[i]:
                expect_reject("a version request to a terminated Inkscape", shell.get_version)
            else:
                got = shell.get_version()
                require(got == plan["version"], "version %r, expected %r", got, plan["version"])
            continue
        doc = op["doc"] % len(docs)
        what = "%s of document %d (operation %d)" % (op["t"], doc, k)
        if op["t"] == "export":
            target = os.path.join(d, "out%d.%s" % (k, op["type"]))
            run = lambda: export_by_inkscape(shell, docs[doc].encode(), target, op["type"])  # noqa: E731
        elif op["t"] == "missing":
            run = lambda: shell.get_width(docs[doc], "nosuch")  # noqa: E731
        else:
            ids = spec["docs"][doc]
            e = op["id"] % len(ids)
            run = lambda: getattr(shell, "get_" + op["t"])(docs[doc], ident(e))  # noqa: E731
        if dead[i]:
            expect_reject(what + " with a terminated Inkscape", run)
            labels.add("after termination")
            continue
        f = fault("open")
        g = fault("export" if op["t"] == "export" else "query") if f != "die" else None
        for x in (f, g):
            if x:
                labels.add(x)
        if "die" in (f, g) or g in ("die_partial", "die_after"):
            dead[i] = True
            expect_reject(what + " when Inkscape terminates", run)
            continue
        if op["t"] == "missing" or g in ("none", "garbage", "garbage2", "garbage3"):
            expect_reject(what + " without an answer", run)
            after += 1
            continue
        got = run()
        if after:
            labels.add("after a failure")
        if op["t"] == "export":
            require(os.path.isfile(target), "%s: no file", what)
            c = ink.content_of(target)
            want = hashlib.sha1(docs[doc].encode()).hexdigest()
            require(c[0] == want, "%s: the file holds another document", what)
            want = hashlib.sha1(("%s|%s" % (plan["version"], spec["to_path"])).encode()).hexdigest()
            require(c[1] == want, "%s: text to path is not as requested", what)
        else:
            want = spec["docs"][doc][e][{"x": 0, "width": 1, "height": 2}[op["t"]]]
            require(isinstance(got, float) and (close(got, want, 1e-6) or abs(got - want) < 1e-5), "%s: %r, expected %r", what, got, want)
    if len(spec["ops"]) >= 6 or labels & {"after a failure", "after termination"}:
        labels.add("nontrivial")
    return sorted(labels)
