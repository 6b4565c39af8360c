#!/opt/venv/bin/python
"""setup_cmd: everything the checks need is present (nothing has to be built)."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vlib import boot  # noqa: E402

boot.setup_paths()
import hypothesis  # noqa: E402
import lxml.etree  # noqa: E402,F401

os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
assert os.access(boot.FAKE_INKSCAPE, os.X_OK)
print("hypothesis", hypothesis.__version__, "- elsie from", boot.REPO)
