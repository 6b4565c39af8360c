#!/opt/venv/bin/python
"""Entry point of every check.

    run.py C01                      quick tier (or VERIF_TIER)
    run.py C01 --tier thorough
    run.py C01 --replay FILE        re-run one saved case, without Hypothesis
    run.py C01 --cases N --shards K override the budget (development)
"""
import os
import sys

sys.dont_write_bytecode = True

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from vlib import runner  # noqa: E402

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:]))
