"""Planted bugs: generates /verif/seeded/<id> from tools/bugs.py and tries them.

    plant.py gen [ID...]      write seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}
    plant.py verify [ID...]   scratch copies: original lines only, imports, stable
                              tests pass, demo 0 without / non-zero with the patch
    plant.py check [ID...]    run the quick check of the bug's property on a scratch copy
"""

import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
BASE = "6d8df76"
PY = "/opt/venv/bin/python"
sys.path.insert(0, HERE)

PRELUDE = '''import atexit, os, shutil, sys, tempfile
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
work = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, work, True)

import lxml.etree as et
import elsie
from elsie.render.inkscape import InkscapeShell
from elsie.render.backends.svg.backend import InkscapeBackend


class Shell(InkscapeShell):
    """Stands in for Inkscape: a character is 10 wide; an export is the SVG itself"""

    def __init__(self):
        self.text_to_path = False

    def run_command(self, command):
        return "Inkscape 1.2 (stub)"

    def get_width(self, svg, id):
        root = et.fromstring(svg.encode())
        return 10.0 * len("".join(root.xpath("//*[@id='%s']" % id)[0].itertext()))

    def get_x(self, svg, id):
        return 0.0

    def convert_to_pdf(self, source, target, type):
        with open(target, "wb") as f:
            f.write(source)


def new_deck(**kwargs):
    return elsie.SlideDeck(
        cache_dir=work,
        backend=InkscapeBackend(inkscape=Shell(), cache_dir=work),
        **kwargs
    )


def pages(deck, **kwargs):
    units = deck.render(None, return_units=True, **kwargs)
    return [et.fromstring(u.get_svg().encode()) for u in units]


def els(root, name):
    return [e for e in root.iter() if et.QName(e).localname == name]


def num(element, name):
    return float(element.get(name))


def expect(what, got, wanted):
    if got != wanted:
        sys.exit("%s: %r, expected %r" % (what, got, wanted))


def path(name, content, mode="w"):
    p = os.path.join(work, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, mode) as f:
        f.write(content)
    return p


'''
SH = '#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, **kw)


def scratch():
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    subprocess.check_call(["cp", "-a", REPO, d + "/repo"])
    return d


def edits(bug):
    if "edits" in bug:
        return bug["edits"]
    return [(bug["file"], bug["old"], bug["new"])]


def apply(bug, root):
    for file, old, new in edits(bug):
        p = os.path.join(root, file)
        with open(p) as f:
            s = f.read()
        if s.count(old) != 1:
            raise Exception("%s: %r is %d times in %s" % (bug["id"], old, s.count(old), file))
        with open(p, "w") as f:
            f.write(s.replace(old, new))


def gen(bug):
    d = scratch()
    try:
        apply(bug, d + "/repo")
        diff = subprocess.check_output(["git", "-C", d + "/repo", "diff"], universal_newlines=True)
    finally:
        shutil.rmtree(d)
    out = os.path.join(VERIF, "seeded", bug["id"])
    os.makedirs(out, exist_ok=True)
    for name, content in (
        ("patch.diff", diff), ("demo.sh", SH), ("demo.py", PRELUDE + bug["demo"].lstrip("\n")),
        ("meta.json", json.dumps({"property": bug["property"], "needs": bug["needs"],
                                  "what_it_breaks": bug["breaks"]}, indent=1) + "\n"),
    ):
        with open(os.path.join(out, name), "w") as f:
            f.write(content)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    return bug["id"], "generated"


def original_lines(bug):
    """The removed lines have to be of the original repository"""
    diff = open(os.path.join(VERIF, "seeded", bug["id"], "patch.diff")).read()
    file, line, removed = None, 0, 0
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            file = l[6:]
        elif l.startswith("@@"):
            line = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("---") or l.startswith("+++") or l.startswith("diff ") or l.startswith("index"):
            pass
        elif l.startswith("-"):
            removed += 1
            b = subprocess.check_output(
                ["git", "-C", REPO, "blame", "-s", "-L%d,%d" % (line, line), BASE + "..", "--", file],
                universal_newlines=True)
            if not b.startswith("^"):
                return "not an original line: %s" % b.strip()
            line += 1
        elif l.startswith(" "):
            line += 1
    return None if removed else "no original line changed"


def stable_tests(root):
    s = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + root)
    out = root + ".json"
    with tempfile.NamedTemporaryFile("w", suffix=".sh") as f:
        f.write(s)
        f.flush()
        r = sh(["bash", f.name, out])
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    res = json.load(open(out))
    passed = set(res.get("passed", []))
    return sorted(stable - passed), r.stdout


def verify(bug):
    bad = original_lines(bug)
    if bad:
        return bug["id"], "BAD " + bad
    d = scratch()
    root = d + "/repo"
    seeded = os.path.join(VERIF, "seeded", bug["id"])
    try:
        shutil.copytree(seeded, d + "/seeded")
        os.remove(d + "/seeded/patch.diff")
        demo = ["bash", d + "/seeded/demo.sh"]
        r = sh(demo, cwd=root)
        if r.returncode:
            return bug["id"], "BAD demo fails on the unchanged tree\n" + r.stdout[-1500:]
        subprocess.check_call(["git", "-C", root, "apply", seeded + "/patch.diff"])
        r = sh([PY, "-B", "-m", "compileall", "-q", root + "/elsie"])
        if r.returncode:
            return bug["id"], "BAD does not compile\n" + r.stdout
        r = sh(demo, cwd=root)
        if not r.returncode:
            return bug["id"], "BAD demo passes with the patch"
        msg = r.stdout.strip().splitlines()[-1]
        missing, out = stable_tests(root)
        if missing:
            return bug["id"], "BAD tests fail: %s" % missing
        return bug["id"], "ok: " + msg
    finally:
        shutil.rmtree(d)


def check(bug, tier="quick"):
    d = scratch()
    try:
        apply(bug, d + "/repo")
        env = dict(os.environ, ELSIE_REPO=d + "/repo", VERIF_SEED="1", VERIF_TIER=tier)
        r = sh([PY, "-B", "checks/run.py", bug["property"], "--tier", tier], cwd=VERIF, env=env)
        line = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        verdict = "CAUGHT" if r.returncode == 1 and line else "missed(%s)" % r.returncode
        return bug["id"], verdict + " " + (line or r.stdout.strip().splitlines()[-1:])[0][:200]
    finally:
        shutil.rmtree(d)


def main():
    from bugs import BUGS

    what, ids = sys.argv[1], sys.argv[2:]
    bugs = [b for b in BUGS if not ids or b["id"] in ids or b["property"] in ids]
    assert len({b["id"] for b in BUGS}) == len(BUGS)
    fn, workers = {"gen": (gen, 8), "verify": (verify, 2), "check": (check, 2)}[what]
    with concurrent.futures.ThreadPoolExecutor(workers) as pool:
        results = {}
        for id, result in pool.map(fn, bugs):
            results[id] = result
            print(id, result, flush=True)
    if what == "check":
        path = os.path.join(HERE, "catches.json")
        old = json.load(open(path)) if os.path.isfile(path) else {}
        names = {b["id"]: b["property"] for b in BUGS}
        old.update((id, "caught by " + names[id] if r.startswith("CAUGHT") else "missed") for id, r in results.items())
        with open(path, "w") as f:
            json.dump({k: old[k] for k in sorted(old) if k in names}, f, indent=1)


if __name__ == "__main__":
    main()
