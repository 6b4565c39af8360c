"""Runs of a program in a process of its own, with crashes and failing file operations at chosen points."""
import builtins
import json
import os
import signal
import sys
import time

from . import boot
from .core import Violation


class Outcome:
    """status: 'ok', 'error', 'killed' or 'hang'."""

    def __init__(self, status, value=None, error=None):
        self.status = status
        self.value = value
        self.error = error


KILLED = 77


def run(fn, timeout=60):
    """Call fn() in a forked process; its JSON result comes back."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setsid()
            signal.setitimer(signal.ITIMER_REAL, 0)
            null = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(null, fd)
            try:
                data = {"ok": fn()}
            except BaseException as e:
                import traceback

                tb = traceback.extract_tb(sys.exc_info()[2])
                data = {"error": "%s: %s" % (type(e).__name__, str(e)[:300]), "where": ["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:]]}
            sys.settrace(None)
            os.write(w, json.dumps(data).encode())
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + timeout
    import select

    hang = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            hang = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            hang = True
            break
        data = os.read(r, 1 << 16)
        if not data:
            break
        chunks.append(data)
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except ProcessLookupError:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    _, status = os.waitpid(pid, 0)
    if hang:
        return Outcome("hang")
    if not chunks:
        return Outcome("killed")
    data = json.loads(b"".join(chunks).decode())
    if "error" in data:
        return Outcome("error", error="%s [%s]" % (data["error"], " < ".join(reversed(data["where"]))))
    return Outcome("ok", data["ok"])


SKIPPED = ("/boxtree/", "/text/", "/ext/")


def crash_points(at=None):
    """Count the executed lines of the code that handles files; die at number `at` like a killed process.

    Writes reach the disk in small pieces, so that a kill can leave incomplete files."""
    count = [0]
    repo = os.path.realpath(boot.REPO) + os.sep
    json_dir = os.path.dirname(json.__file__)
    wanted = {}

    def local(frame, event, arg):
        if event == "line":
            count[0] += 1
            if count[0] == at:
                os._exit(KILLED)
        return local

    def glob(frame, event, arg):
        name = frame.f_code.co_filename
        w = wanted.get(name)
        if w is None:
            path = os.path.realpath(name)
            w = wanted[name] = (path.startswith(repo) and not any(s in path for s in SKIPPED)) or path.startswith(json_dir)
        return local if w else None

    small_pieces()
    sys.settrace(glob)
    return count


def small_pieces():
    real = builtins.open

    def opened(file, mode="r", *args, **kw):
        if isinstance(file, (str, bytes)) and any(m in mode for m in "wax+") and not args and "buffering" not in kw:
            f = real(file, mode, buffering=64, **kw)
            if "b" not in mode:
                f._CHUNK_SIZE = 32
            return f
        return real(file, mode, *args, **kw)

    builtins.open = opened


def failing_files(directory, op, n):
    """The n-th operation of a kind on a file in the directory fails: open (for writing), write, close, replace."""
    count = [0]
    real_open, real_replace, real_rename = builtins.open, os.replace, os.rename
    root = os.path.realpath(directory) + os.sep

    def inside(path):
        return isinstance(path, str) and os.path.realpath(path).startswith(root)

    def bump(what, path):
        if what == op and inside(path):
            count[0] += 1
            if count[0] == n:
                raise OSError(28, "No space left on device", path)

    class File:
        def __init__(self, f, path):
            self._f = f
            self._path = path

        def __getattr__(self, name):
            return getattr(self._f, name)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

        def __iter__(self):
            return iter(self._f)

        def write(self, data):
            if op == "write" and inside(self._path):
                count[0] += 1
                if count[0] == n:
                    self._f.write(data[: len(data) // 2])
                    self._f.flush()
                    raise OSError(28, "No space left on device", self._path)
            return self._f.write(data)

        def close(self):
            if not self._f.closed:
                self._f.close()
                bump("close", self._path)

    def opened(file, mode="r", *args, **kw):
        if isinstance(file, str) and any(m in mode for m in "wax+") and inside(file):
            bump("open", file)
            return File(real_open(file, mode, *args, **kw), file)
        return real_open(file, mode, *args, **kw)

    def replace(a, b, **kw):
        bump("replace", b)
        return real_replace(a, b, **kw)

    def rename(a, b, **kw):
        bump("replace", b)
        return real_rename(a, b, **kw)

    builtins.open = opened
    os.replace = replace
    os.rename = rename
    return count


def must(outcome, what):
    """The result of a run that has to succeed."""
    if outcome.status == "ok":
        return outcome.value
    if outcome.status == "hang":
        raise Violation("%s did not finish" % what)
    raise Violation("%s failed: %s" % (what, outcome.error or "process died"))
