"""Process set-up shared by the parent and the workers."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
CHECKS = os.path.join(VERIF, "checks")
REPO = os.environ.get("ELSIE_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
HYPO = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
FAKE_INKSCAPE = os.path.join(CHECKS, "vlib", "fake_inkscape")


def setup_paths():
    """Import elsie from the tree under test, and Hypothesis from the tool venv.

    The tool venv goes to the very end, so that lxml, pygments and the other
    libraries elsie uses are the ones it is built with."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if HYPO not in sys.path:
        sys.path.append(HYPO)
    import elsie

    where = os.path.realpath(elsie.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("elsie imported from %s, not from %s" % (where, REPO))
