"""Threads that run one at a time, in an order chosen by the test.

Every executed line of the watched files is a point where another thread may continue. Locks of the watched
module are replaced by ones that tell the scheduler when a thread has to wait; other ways of waiting are
noticed because the thread does not come back in time.
"""
import sys
import threading
import types

READY, RUNNING, BLOCKED, DONE = "ready", "running", "blocked", "done"
PATIENCE = 0.1


class Stop(BaseException):
    pass


class Worker:
    def __init__(self, sched, number, fn):
        self.number, self.fn, self.sched = number, fn, sched
        self.go = threading.Semaphore(0)
        self.state = READY
        self.error = None
        self.result = None
        self.blocked_on = None
        self.thread = threading.Thread(target=self.run, daemon=True)

    def run(self):
        self.go.acquire()
        self.sched.local.worker = self
        sys.settrace(self.sched.trace)
        try:
            self.result = self.fn()
        except Stop:
            pass
        except Exception as e:
            self.error = e
        finally:
            sys.settrace(None)
            self.state = DONE
            self.sched.back.release()


class Scheduler:
    def __init__(self, files, choices, patience=PATIENCE):
        self.files, self.choices, self.patience = files, list(choices), patience
        self.local = threading.local()
        self.back = threading.Semaphore(0)
        self.workers = []
        self.steps = 0
        self.switches = 0
        self.free = False  # everything runs freely
        self.known = {}

    # ------------------------------------------------ in the threads

    def me(self):
        return getattr(self.local, "worker", None)

    def trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        ok = self.known.get(name)
        if ok is None:
            ok = self.known[name] = any(name.endswith(f) for f in self.files)
        return self.lines if ok else None

    def lines(self, frame, event, arg):
        if event == "line":
            self.pause()
        return self.lines

    def pause(self, blocked=None):
        w = self.me()
        if w is None or self.free:
            return
        w.blocked_on = blocked
        w.state = READY if blocked is None else BLOCKED
        self.back.release()
        w.go.acquire()
        if self.free == "stop":
            raise Stop
        w.blocked_on = None

    # ------------------------------------------------ outside

    def run(self, fns, limit=20000):
        """Returns 'ok', 'deadlock' or 'endless'."""
        self.workers = [Worker(self, i, fn) for i, fn in enumerate(fns)]
        for w in self.workers:
            w.thread.start()
        turn, left, current = 0, 0, None
        try:
            while True:
                for w in self.workers:
                    if w.state == BLOCKED and w.blocked_on():
                        w.state = READY
                ready = [w for w in self.workers if w.state == READY]
                if not ready:
                    if all(w.state == DONE for w in self.workers):
                        return "ok"
                    if any(w.state == RUNNING for w in self.workers) and self.back.acquire(timeout=20 * self.patience):
                        continue  # waits in a way the scheduler does not see
                    return "deadlock"
                if left <= 0 or current not in ready:
                    # the schedule: (which thread, for how many lines)
                    which, left = self.choices[turn % len(self.choices)] if self.choices else (0, 10 ** 9)
                    turn += 1
                    if current not in (None, ready[which % len(ready)]):
                        self.switches += 1
                    current = ready[which % len(ready)]
                left -= 1
                self.steps += 1
                if self.steps > limit:
                    return "endless"
                current.state = RUNNING
                current.go.release()
                if not self.back.acquire(timeout=self.patience):
                    current = None
        finally:
            self.free = "stop"
            for w in self.workers:
                if w.state != DONE:
                    for _ in range(3):
                        w.go.release()
            for w in self.workers:
                w.thread.join(0.5)


def primitives(sched):
    """A stand-in for the module threading."""

    class Lock:
        again = False

        def __init__(self):
            self.owner, self.depth = None, 0

        def _who(self):
            return sched.me() or threading.get_ident()

        def acquire(self, blocking=True, timeout=-1):
            who = self._who()
            while self.owner is not None and not (self.again and self.owner == who):
                if not blocking or timeout >= 0:
                    return False
                if sched.me() is None:
                    raise RuntimeError("a lock is still held")
                sched.pause(lambda: self.owner is None)
            self.owner = who
            self.depth += 1
            return True

        def release(self):
            if self.owner is None:
                raise RuntimeError("release unlocked lock")
            self.depth -= 1
            if not self.depth:
                self.owner = None

        def locked(self):
            return self.owner is not None

        def __enter__(self):
            return self.acquire()

        def __exit__(self, *a):
            self.release()

    class RLock(Lock):
        again = True

    class Condition:
        def __init__(self, lock=None):
            self.lock = lock if lock is not None else RLock()
            self.waiters = []
            self.acquire, self.release = self.lock.acquire, self.lock.release

        def __enter__(self):
            return self.lock.acquire()

        def __exit__(self, *a):
            self.lock.release()

        def wait(self, timeout=None):
            if not self.lock.locked():
                raise RuntimeError("cannot wait on un-acquired lock")
            token = []
            self.waiters.append(token)
            depth, self.lock.depth, self.lock.owner = self.lock.depth, 0, None
            while not token and timeout is None:
                sched.pause(lambda: bool(token))
            got = bool(token)
            if not got:
                self.waiters.remove(token)
            self.lock.acquire()
            self.lock.depth = depth
            return got

        def wait_for(self, predicate, timeout=None):
            while not predicate():
                self.wait()
            return predicate()

        def notify(self, n=1):
            if not self.lock.locked():
                raise RuntimeError("cannot notify on un-acquired lock")
            for t in self.waiters[:n]:
                t.append(1)
            del self.waiters[:n]

        def notify_all(self):
            self.notify(len(self.waiters))

    class Event:
        def __init__(self):
            self.flag = False

        def is_set(self):
            return self.flag

        def set(self):
            self.flag = True

        def clear(self):
            self.flag = False

        def wait(self, timeout=None):
            while not self.flag and timeout is None:
                sched.pause(lambda: self.flag)
            return self.flag

    m = types.ModuleType("threading")
    m.__dict__.update({k: v for k, v in vars(threading).items() if not k.startswith("__")})
    m.Lock, m.RLock, m.Condition, m.Event = Lock, RLock, Condition, Event
    return m
