"""Violation type and the guard that separates 'the code is wrong' from 'the harness is wrong'."""
import contextlib
import io
import signal
import sys
import traceback


class Violation(Exception):
    """The property does not hold for this case."""


class Hang(BaseException):
    """A case did not finish (raised from SIGALRM)."""


class Skip(Exception):
    """The case lies outside the domain of the property (counted, never a verdict)."""


class Rejected(Exception):
    """elsie raised where the property allows it to raise."""


@contextlib.contextmanager
def judged(what):
    """Everything inside runs the code under test or reads what it produced: an exception
    there means that a valid input was not handled."""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    except (Violation, Skip, Hang, KeyboardInterrupt):
        raise
    except MemoryError:
        raise Violation("%s: ran out of memory" % what)
    except RecursionError as e:
        raise Violation("%s: %r" % (what, e))
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        tail = ["%s:%d %s" % (f.filename.split("/")[-1], f.lineno, f.name) for f in tb[-3:]]
        raise Violation("%s raised %s: %s [%s]" % (what, type(e).__name__, str(e)[:300], " < ".join(reversed(tail))))


def expect_reject(what, fn):
    """The call has to be refused with an exception."""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            r = fn()
    except (Hang, KeyboardInterrupt):
        raise
    except Exception:
        return
    raise Violation("%s was accepted (returned %r)" % (what, r))


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(a, b, tol=1e-6):
    return abs(a - b) <= tol * (1.0 + abs(a) + abs(b))


def require_close(a, b, msg, tol=1e-6):
    if not close(a, b, tol):
        raise Violation("%s: got %r, expected %r" % (msg, a, b))


@contextlib.contextmanager
def alarm(seconds):
    def handler(signum, frame):
        raise Hang()

    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
