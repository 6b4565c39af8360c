"""Sharded, seeded Hypothesis campaigns with replay files, evidence and known findings.

A property module (checks/props/<id>.py) provides

    ID, RULE, ASSUMPTIONS, LEVEL (default "exploration")
    CASES = {"quick": n, "thorough": n}       total number of generated cases
    strategy(tier) -> Hypothesis strategy of JSON values
    check(spec, env) -> iterable of class labels; "nontrivial" among them marks a
                        non-trivial case; raises Violation / Skip

or, for properties decided by several generators, SUITES: a dict
    name -> {"strategy": f, "check": f, "share": fraction of the cases}.
"""
import argparse
import collections
import glob
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import boot
from .core import Hang, Skip, Violation, alarm

SHARDS = 8
HANG_S = 120
SHRINK_S = {"quick": 25, "thorough": 90}
if os.environ.get("VERIF_SHRINK_S"):  # development: tools/mutate.py
    SHRINK_S = dict.fromkeys(SHRINK_S, float(os.environ["VERIF_SHRINK_S"]))
WALL_S = {"quick": 400, "thorough": 3000}
MAX_SAMPLES = 3


def canon(spec):
    return json.dumps(spec, sort_keys=True, ensure_ascii=True)


def digest(spec):
    return hashlib.sha1(canon(spec).encode()).hexdigest()[:16]


class Env:
    """Per-worker scratch space handed to the checks."""

    def __init__(self, root):
        self.root = root
        self.shared = {}
        self._n = 0

    def fresh_dir(self, tag="d"):
        self._n += 1
        path = os.path.join(self.root, "%s%d" % (tag, self._n))
        os.makedirs(path)
        return path

    def drop(self, path):
        assert os.path.realpath(path).startswith(os.path.realpath(self.root) + os.sep)
        shutil.rmtree(path, ignore_errors=True)


def load(pid):
    mod = importlib.import_module("props.%s" % pid.lower())
    if not hasattr(mod, "SUITES"):
        mod.SUITES = {"main": {"strategy": mod.strategy, "check": mod.check, "share": 1.0}}
    return mod


def load_known(pid):
    path = os.path.join(boot.VERIF, "known_findings.jsonl")
    out = []
    if os.path.isfile(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith("#"):
                    continue
                e = json.loads(line)
                if e.get("property") == pid and e.get("status") == "known":
                    out.append(e)
    return out


def known_match(entry, suite, spec, msg):
    """A known finding is one input (a file of the corpus) and how it fails."""
    with open(os.path.join(boot.VERIF, entry["case"])) as f:
        data = json.load(f)
    return data["suite"] == suite and canon(data["case"]) == canon(spec) and entry["message"] in msg


class Recorder:
    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.nontrivial = set()
        self.labels = collections.Counter()
        self.samples = []
        self.failures = []  # (size, suite, spec, message)
        self.known = collections.Counter()
        self.first_failure = None

    def run(self, mod, suite, spec, env, known):
        """Evaluate one case. Returns a message if it violates the property."""
        self.evaluations += 1
        check = mod.SUITES[suite]["check"]
        try:
            with alarm(HANG_S):
                labels = list(check(spec, env) or ())
        except Skip as e:
            self.skipped += 1
            self.labels["skipped:%s" % (e,)] += 1
            return None
        except Hang:
            msg = "no result within %d s" % HANG_S
        except Violation as e:
            msg = str(e)
        else:
            for lab in labels:
                if lab != "nontrivial":
                    self.labels[suite + ":" + lab if len(mod.SUITES) > 1 else lab] += 1
            if "nontrivial" in labels:
                d = digest([suite, spec])
                if d not in self.nontrivial:
                    self.nontrivial.add(d)
                    if len(self.samples) < MAX_SAMPLES and len(canon(spec)) < 3000:
                        self.samples.append({"suite": suite, "case": spec})
            return None
        matcher = getattr(mod, "known_match", known_match)
        for k in known:
            if matcher(k, suite, spec, msg):
                self.known[k["id"]] += 1
                return None
        return msg

    def dump(self):
        return {
            "evaluations": self.evaluations,
            "skipped": self.skipped,
            "nontrivial": sorted(self.nontrivial),
            "labels": dict(self.labels),
            "samples": self.samples,
            "failures": self.failures,
            "known": dict(self.known),
        }


def worker(pid, tier, seed, shard, shards, cases, out):
    boot.setup_paths()
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    sys.setrecursionlimit(3000)
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    mod = load(pid)
    known = load_known(pid)
    rec = Recorder()
    root = os.environ["CHECK_TMP"]
    env = Env(tempfile.mkdtemp(prefix="w%d-" % shard, dir=root))
    started = time.monotonic()
    done = {"budget": False}

    def finish():
        data = rec.dump()
        data["budget_hit"] = done["budget"]
        with open(out + ".tmp", "w") as f:
            json.dump(data, f)
        os.replace(out + ".tmp", out)

    for si, (suite, conf) in enumerate(sorted(mod.SUITES.items())):
        if conf.get("share", 1.0) == 0:  # only for the cases of the corpus
            continue
        total = max(1, int(round(cases * conf.get("share", 1.0))))
        n = total // shards + (1 if shard < total % shards else 0)
        if n == 0:
            continue
        before_suite = len(rec.failures)

        def make(suite):
            def body(spec):
                if time.monotonic() - started > WALL_S[tier] and rec.first_failure is None:
                    done["budget"] = True
                    return
                msg = rec.run(mod, suite, spec, env, known)
                if msg is not None:
                    if rec.first_failure is None:
                        rec.first_failure = time.monotonic()
                    rec.failures.append((len(canon(spec)), suite, spec, msg))
                    rec.failures.sort(key=lambda f: f[0])
                    del rec.failures[4:]
                if rec.first_failure is not None:
                    if time.monotonic() - rec.first_failure > SHRINK_S[tier] or (
                        msg is not None and msg.startswith("no result within")
                    ):
                        finish()
                        cleanup(mod, env)
                        os._exit(0)
                if msg is not None:
                    raise AssertionError(msg)

            return body

        test = settings(
            max_examples=n,
            database=None,
            deadline=None,
            derandomize=False,
            print_blob=False,
            report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck),
            phases=[Phase.generate, Phase.shrink],
            verbosity=hypothesis.Verbosity.quiet,
        )(given(conf["strategy"](tier))(make(suite)))
        test = hypothesis.seed(seed * 1000003 + shard * 101 + si)(test)
        try:
            test()
        except Exception:
            if len(rec.failures) == before_suite and rec.first_failure is None:
                raise
        if rec.failures:
            break
    finish()
    cleanup(mod, env)


def cleanup(mod, env):
    for obj in list(env.shared.values()):
        close = getattr(obj, "verif_close", None)
        if close:
            try:
                close()
            except Exception:
                pass


def child_env(tmp):
    e = dict(os.environ)
    e.update(
        CHECK_TMP=tmp,
        TMPDIR=tmp,
        HOME=tmp,
        PYTHONHASHSEED="0",
        LC_ALL="C.UTF-8",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPYCACHEPREFIX=os.path.join(tmp, "pyc"),
        PYTHONWARNINGS="ignore",
        XDG_CACHE_HOME=os.path.join(tmp, "xdg"),
    )
    e.pop("ELSIE_INKSCAPE", None)
    return e


def corpus_files(pid):
    return sorted(glob.glob(os.path.join(boot.VERIF, "corpus", pid, "*.json")))


def replay_main(pid, path):
    """Child process: evaluate saved cases without Hypothesis."""
    boot.setup_paths()
    mod = load(pid)
    known = load_known(pid)
    env = Env(tempfile.mkdtemp(prefix="r-", dir=os.environ["CHECK_TMP"]))
    rec = Recorder()
    paths = corpus_files(pid) if path == "@corpus" else [path]
    bad = []
    for p in paths:
        with open(p) as f:
            data = json.load(f)
        msg = rec.run(mod, data.get("suite", "main"), data["case"], env, known)
        if msg is not None:
            bad.append([p, msg])
    cleanup(mod, env)
    res = rec.dump()
    res["bad"] = bad
    print("@@RESULT " + json.dumps(res))
    return 0


def run_children(cmds, env, tmp):
    procs = []
    for i, cmd in enumerate(cmds):
        err = open(os.path.join(tmp, "err%d" % i), "w+")
        procs.append((subprocess.Popen(cmd, env=env, cwd=tmp, stdin=subprocess.DEVNULL, stdout=err,
                                       stderr=subprocess.STDOUT, start_new_session=True), err))
    out = []
    for p, err in procs:
        rc = p.wait()
        err.seek(0)
        out.append((rc, err.read()))
        err.close()
        try:
            os.killpg(p.pid, 9)
        except (ProcessLookupError, PermissionError):
            pass
    return out


def save_replay(pid, suite, spec, msg):
    d = os.path.join(boot.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, digest([suite, spec])))
    with open(path, "w") as f:
        json.dump({"property": pid, "suite": suite, "message": msg, "case": spec}, f, indent=1, sort_keys=True)
        f.write("\n")
    return path


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--shards", type=int, default=SHARDS)
    ap.add_argument("--replay")
    ap.add_argument("--worker", type=int)
    ap.add_argument("--out")
    ap.add_argument("--child-replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    pid = a.pid.upper()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"

    if a.worker is not None:
        worker(pid, a.tier, a.seed, a.worker, a.shards, a.cases, a.out)
        return 0
    if a.child_replay:
        return replay_main(pid, a.child_replay)

    started = time.monotonic()
    tmp = tempfile.mkdtemp(prefix="elsie-verif-")
    try:
        return parent(a, pid, tmp, started)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def parent(a, pid, tmp, started):
    sys.path.append(boot.HYPO)
    sys.path.insert(0, boot.REPO)
    me = os.path.join(boot.CHECKS, "run.py")
    env = child_env(tmp)

    if a.replay:
        path = os.path.abspath(a.replay)
        ((rc, text),) = run_children([[boot.PYTHON, me, pid, "--child-replay", path]], env, tmp)
        line = [x for x in text.splitlines() if x.startswith("@@RESULT ")]
        if rc != 0 or not line:
            sys.stderr.write(text)
            return 2
        res = json.loads(line[-1][9:])
        if res["bad"]:
            print(res["bad"][0][1])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        for k in res["known"]:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        print("ok: property=%s holds on %s" % (pid, path))
        return 0

    meta = load(pid)
    cases = a.cases or meta.CASES[a.tier]
    cmds = [[boot.PYTHON, me, pid, "--child-replay", "@corpus"]]
    outs = []
    for i in range(a.shards):
        o = os.path.join(tmp, "out%d.json" % i)
        outs.append(o)
        cmds.append([boot.PYTHON, me, pid, "--tier", a.tier, "--seed", str(a.seed), "--worker", str(i),
                     "--shards", str(a.shards), "--cases", str(cases), "--out", o])
    results = run_children(cmds, env, tmp)

    harness_errors = []
    failures = []
    agg = collections.Counter()
    labels = collections.Counter()
    known_hits = collections.Counter()
    nontrivial = set()
    samples = []
    budget_hit = False

    def absorb(data):
        agg["evaluations"] += data["evaluations"]
        agg["skipped"] += data["skipped"]
        labels.update(data["labels"])
        nontrivial.update(data["nontrivial"])
        for s in data["samples"]:
            if len(samples) < 6:
                samples.append(s)
        known_hits.update(data["known"])

    rc, text = results[0]
    line = [x for x in text.splitlines() if x.startswith("@@RESULT ")]
    if rc != 0 or not line:
        harness_errors.append("corpus replay: rc=%s\n%s" % (rc, text[-4000:]))
    else:
        res = json.loads(line[-1][9:])
        agg["corpus"] = res["evaluations"]
        absorb(res)
        for p, msg in res["bad"]:
            failures.append((0, None, p, msg))
    for (rc, text), o in zip(results[1:], outs):
        if os.path.isfile(o):
            with open(o) as f:
                data = json.load(f)
            absorb(data)
            budget_hit = budget_hit or data.get("budget_hit", False)
            failures.extend(tuple(x) for x in data["failures"])
        if rc != 0:
            harness_errors.append("worker: rc=%s\n%s" % (rc, text[-4000:]))
        elif not os.path.isfile(o):
            harness_errors.append("worker wrote nothing\n%s" % text[-4000:])

    failures.sort(key=lambda f: f[0])
    wall = time.monotonic() - started
    evidence = {
        "property": pid,
        "tier": a.tier,
        "seed": a.seed,
        "level": getattr(meta, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": agg["evaluations"],
            "distinct_nontrivial": len(nontrivial),
            "rule": meta.RULE,
            "samples": samples,
            "classes": dict(sorted(labels.items())),
            "skipped_out_of_domain": agg["skipped"],
            "regression_corpus_cases": agg["corpus"],
            "shards": a.shards,
            "budget_hit": budget_hit,
            "known_findings_hit": dict(known_hits),
        },
        "assumptions": list(getattr(meta, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 3),
        "violations": len(failures),
    }
    d = os.path.join(boot.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write("\n")

    for k in load_known(pid):
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, k["what"], k["id"]))
    if a.v:
        for k, v in sorted(labels.items()):
            print("  %-40s %d" % (k, v))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d out of domain, %.1f s%s" % (
        pid, a.tier, a.seed, agg["evaluations"], len(nontrivial), agg["skipped"], wall,
        " (time budget hit)" if budget_hit else ""))
    if failures:
        size, suite, spec, msg = failures[0]
        path = spec if suite is None else save_replay(pid, suite, spec, msg)
        print(msg)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if harness_errors:
        sys.stderr.write("harness error\n" + harness_errors[0] + "\n")
        return 2
    return 0
