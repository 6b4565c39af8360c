"""C39: the cache of files used by several threads."""
import os

from hypothesis import strategies as st

from vlib import threads
from vlib.core import Violation, judged, require

ID = "C39"
RULE = ("2-4 threads with 1-4 calls of FsCache.ensure or ensure_by_file each, for 1-3 contents and 2 types, with files from an earlier run, constructors that pause or fail, waiting or not; every line of the cache is a point where "
        "the schedule may continue another thread; what each call returns, the files and how often they were made are compared with a model; non-trivial: two calls for the same file overlap")
ASSUMPTIONS = ["nobody removes files while the threads run"]
CASES = {"quick": 6000, "thorough": 60000}


@st.composite
def strategy_(draw, tier):
    n = draw(st.integers(1, 3))
    call = st.fixed_dictionaries({"data": st.integers(0, n - 1), "type": st.sampled_from(["pdf", "pdf", "pdf", "png"]), "text": st.booleans(), "file": st.sampled_from([False, False, False, True]),
                                  "wait": st.sampled_from([None, None, True, True, False]), "fails": st.sampled_from([False] * 6 + [True]), "pauses": st.integers(0, 3)})
    few = st.one_of(st.integers(1, 12), st.integers(1, 3), st.integers(1, 40))
    return {"threads": draw(st.lists(st.lists(call, min_size=1, max_size=3 if tier == "quick" else 4), min_size=2, max_size=3 if tier == "quick" else 4)),
            "before": draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from(["pdf", "png"])).map(list), max_size=2)),
            "schedule": draw(st.lists(st.tuples(st.integers(0, 3), few).map(list), min_size=1, max_size=25))}


def strategy(tier):
    return strategy_(tier)


def source(i):
    return ("drawing %d \u00e9" % i) * (i + 1)


def content(i, t):
    return ("%s of %s" % (t, source(i)) * 20).encode()


class Broken(Exception):
    pass


def check(spec, env):
    from elsie.utils import cache as module

    d = env.fresh_dir("threads")
    real = getattr(module, "threading", None)
    sched = threads.Scheduler(["elsie/utils/cache.py"], spec["schedule"])
    try:
        with judged("the cache"):
            for i in range(3):
                with open(os.path.join(d, "source%d" % i), "wb") as f:
                    f.write(source(i).encode())

            def make(data, target, t):
                with open(target, "wb") as f:
                    f.write(content(next(i for i in range(3) if source(i).encode() == (data.encode() if isinstance(data, str) else data)), t))

            first = module.FsCache(d, "1")
            for i, t in spec["before"]:
                first.ensure(source(i).encode(), t, make)
            if real is not None:
                module.threading = threads.primitives(sched)
            return use(spec, d, module.FsCache(d, "1"), sched)
    finally:
        if real is not None:
            module.threading = real
        env.drop(d)


def use(spec, d, cache, sched):
    labels = set()
    active, made, failed, seen = {}, {}, set(), {}
    overlap = []
    calls = {}

    def one(c):
        key = (c["data"], c["type"])
        calls.setdefault(key, 0)
        calls[key] += 1
        if calls[key] > 1:
            overlap.append(key)
        broken = failed.copy()

        def construct(data, target, t):
            require(t == c["type"], "the constructor for %r is asked for %r", c["type"], t)
            data = data.encode() if isinstance(data, str) else data
            require(data == source(c["data"]).encode(), "the constructor gets other data")
            require(not active.get(key), "the same file %r is made twice at the same time", key)
            active[key] = True
            try:
                with open(target, "wb") as f:
                    body = content(*key)
                    for k in range(c["pauses"] + 1):
                        f.write(body[len(body) * k // (c["pauses"] + 1):len(body) * (k + 1) // (c["pauses"] + 1)])
                        f.flush()
                        sched.pause()
                if c["fails"]:
                    failed.add(key)
                    raise Broken("constructor of %r" % (key,))
                made[key] = made.get(key, 0) + 1
            finally:
                active[key] = False

        kw = {} if c["wait"] is None else {"wait_on_collision": c["wait"]}
        try:
            if c["file"]:
                path = cache.ensure_by_file(os.path.join(d, "source%d" % c["data"]), c["type"], construct, **kw)
            else:
                path = cache.ensure(source(c["data"]) if c["text"] else source(c["data"]).encode(), c["type"], construct, **kw)
        except threads.Stop:
            raise
        except Violation:
            raise
        except Exception as e:
            require(key in failed, "ensure() of %r raised %r, although no constructor failed", key, e)
            return
        finally:
            calls[key] -= 1
        require(path == seen.setdefault(key, path), "the paths of %r differ: %r and %r", key, path, seen[key])
        require(os.path.dirname(os.path.abspath(path)) == os.path.abspath(d), "the file %r is not in the cache directory", path)
        if c["wait"] is not False:
            try:
                with open(path, "rb") as f:
                    got = f.read()
            except OSError as e:
                require(key in failed, "the file of %r does not exist when ensure() returns: %s", key, e)
                return
            require(got == content(*key), "the file of %r is not complete when ensure() returns: %d of %d bytes", key, len(got), len(content(*key)))

    def program(calls_):
        def f():
            for c in calls_:
                one(c)

        return f

    how = sched.run([program(t) for t in spec["threads"]])
    for w in sched.workers:
        if w.error is not None:
            if isinstance(w.error, Violation):
                raise w.error
            raise Violation("thread %d: %r" % (w.number, w.error))
    require(how == "ok", "the threads do not finish: %s", how)
    require(len(set(seen.values())) == len(seen), "different contents have the same path: %r", seen)
    for key in seen:
        n = made.get(key, 0)
        require(n <= 1, "the file of %r was made %d times", key, n)
        if list(key) in spec["before"]:
            require(n == 0, "the file of %r was made again", key)
    # afterwards
    for key, path in seen.items():
        def again(data, target, t):
            made[key] = made.get(key, 0) + 1
            with open(target, "wb") as f:
                f.write(content(*key))

        n = made.get(key, 0)
        require(cache.ensure(source(key[0]).encode(), key[1], again) == path, "the path of %r changed", key)
        if key not in failed:
            require(made.get(key, 0) == n, "the file of %r is made again", key)
        with open(path, "rb") as f:
            require(f.read() == content(*key), "the file of %r is not complete", key)
    cache.remove_unused()
    for key, path in seen.items():
        require(os.path.isfile(path), "remove_unused() removed the file of %r, which was used", key)
    if overlap:
        labels.update(("overlapping calls", "nontrivial"))
    if failed:
        labels.add("failing constructor")
    if sched.switches > 5:
        labels.add("more than 5 switches")
    return sorted(labels)
