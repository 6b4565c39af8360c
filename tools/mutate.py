"""Sensitivity of the checks to small edits: mutants of elsie in scratch copies.

    mutate.py FILE [--every N] [--offset K] [--cases C] [--jobs J] [--out OUT]

Every mutant is given to the checks of its file (in the order of PLAN) until one reports a
violation. Survivors are printed with their diff.
"""
import argparse
import ast
import concurrent.futures
import copy
import difflib
import os
import queue
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
PLAN = {
    "boxtree/layout.py": "C01 C02 C03 C19 C12 C08",
    "boxtree/lazy.py": "C02 C17 C04",
    "boxtree/value.py": "C01 C02 C14 C04",
    "boxtree/box.py": "C05 C08 C33 C07 C06 C04",
    "boxtree/boxitem.py": "C08 C02 C33",
    "boxtree/boxmixin.py": "C17 C18 C19 C20 C08 C02 C03 C05 C06 C13 C09 C12 C31 C15 C04 C24",
    "slides/show.py": "C05 C06 C04 C20",
    "slides/slide.py": "C01 C06 C05 C33 C30 C15 C07 C22",
    "slides/slidedeck.py": "C22 C23 C24 C25 C26 C15 C30 C16 C10 C04",
    "text/textparser.py": "C09 C13 C14 C29",
    "text/highlight.py": "C13",
    "text/stylecontainer.py": "C10 C11",
    "text/textstyle.py": "C11 C10 C09",
    "text/textboxitem.py": "C12 C14 C32",
    "ext/list.py": "C28",
    "ext/markdown.py": "C29",
    "ext/latex.py": "C34",
    "ext/export.py": "C37",
    "ext/todo.py": "C38",
    "shapes/arrow.py": "C18 C17",
    "shapes/path.py": "C17 C18 C31",
    "utils/cache.py": "C25 C39 C26",
    "utils/geom.py": "C03 C17 C18 C33 C31",
    "utils/sxml.py": "C16 C09 C13",
    "utils/files.py": "C19",
    "render/inkscape.py": "C27 C23 C26 C25",
    "render/jupyter.py": "C30",
    "render/ora.py": "C21 C16",
    "render/pdfmerge.py": "C23",
    "render/render.py": "C22 C23 C26 C15",
    "render/image.py": "C20 C06",
    "render/backends/svg/backend.py": "C25 C26 C27 C15 C33",
    "render/backends/svg/draw.py": "C09 C17 C12 C16 C19 C21",
    "render/backends/svg/query.py": "C27 C12",
    "render/backends/svg/rcontext.py": "C12 C17 C19 C16",
    "render/backends/svg/utils.py": "C16 C34 C19 C17 C22",
    "render/backends/cairo/backend.py": "C31 C14 C32 C23 C15 C33",
    "render/backends/cairo/draw.py": "C31 C32",
    "render/backends/cairo/rcontext.py": "C31 C32 C14 C33",
    "render/backends/cairo/shapes.py": "C31 C32",
    "render/backends/cairo/svg.py": "C31 C32",
    "render/backends/cairo/text.py": "C32 C14 C31 C33",
    "render/backends/cairo/utils.py": "C31 C32",
}
PLAN["../docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py"] = "C42"
PLAN["../docs/mkdocs-nedoc-plugin/mkdocs_nedoc_plugin/__init__.py"] = "C43"
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Mod: ast.Mult, ast.FloorDiv: ast.Mult}


def variants(node):
    """Replacements of a node."""
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        n = copy.deepcopy(node)
        n.ops[0] = CMP[type(node.ops[0])]()
        yield n
    if isinstance(node, ast.BinOp) and type(node.op) in BIN:
        n = copy.deepcopy(node)
        n.op = BIN[type(node.op)]()
        yield n
    if isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node)
        n.op = ast.And() if isinstance(node.op, ast.Or) else ast.Or()
        yield n
        for i in range(len(node.values)):
            n = copy.deepcopy(node)
            del n.values[i]
            yield n.values[0] if len(n.values) == 1 else n
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
        yield node.operand
    if isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            yield ast.Constant(not v)
        elif isinstance(v, int):
            yield ast.Constant(v + 1)
        elif isinstance(v, float):
            yield ast.Constant(v * 1.5 + 0.01)
        elif isinstance(v, str) and v:
            yield ast.Constant(v + "x")
    if isinstance(node, ast.Call):
        if isinstance(node.func, ast.Name) and node.func.id in ("max", "min"):
            n = copy.deepcopy(node)
            n.func.id = "min" if node.func.id == "max" else "max"
            yield n
        if isinstance(node.func, ast.Name) and node.func.id in ("dict", "list", "sorted", "reversed", "deepcopy", "copy", "tuple", "str", "float", "int") and len(node.args) == 1 and not node.keywords:
            yield node.args[0]
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("copy", "strip", "encode", "decode", "lstrip", "rstrip") and not node.args:
            yield node.func.value
        if len(node.args) >= 2:
            for i in range(len(node.args) - 1):
                n = copy.deepcopy(node)
                n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]
                yield n
        for i in range(len(node.keywords)):
            n = copy.deepcopy(node)
            del n.keywords[i]
            yield n
    if isinstance(node, (ast.If, ast.IfExp, ast.While)):
        for v in (True, False):
            if isinstance(node, ast.While) and v:
                continue
            n = copy.deepcopy(node)
            n.test = ast.Constant(v)
            yield n
    if isinstance(node, (ast.Expr, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Assert, ast.Delete)) or isinstance(node, ast.Assign) and isinstance(node.targets[0], (ast.Attribute, ast.Subscript)):
        if not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
            yield ast.Pass()
    if isinstance(node, ast.Return) and node.value is not None:
        yield ast.Return(ast.Constant(None))


def mutants(source):
    tree = ast.parse(source)
    skip = set()
    for n in ast.walk(tree):
        # docstrings, annotations, imports and messages of exceptions
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.update(map(id, ast.walk(n)))
        if isinstance(n, ast.Raise) or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("print", "Exception"):
            skip.update(id(c) for c in ast.walk(n) if c is not n)
        if isinstance(n, ast.FunctionDef) and n.name in ("__repr__",):
            skip.update(map(id, ast.walk(n)))
        if isinstance(n, ast.FunctionDef):
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation is not None:
                    skip.update(map(id, ast.walk(a.annotation)))
            if n.returns is not None:
                skip.update(map(id, ast.walk(n.returns)))
        if isinstance(n, ast.If) and "TYPE_CHECKING" in ast.unparse(n.test):
            skip.update(map(id, ast.walk(n)))
        if isinstance(n, ast.JoinedStr):
            skip.update(id(c) for c in ast.walk(n) if isinstance(c, ast.FormattedValue))
    base = ast.unparse(tree)
    out = []
    for parent in ast.walk(tree):
        for field, value in ast.iter_fields(parent):
            items = list(enumerate(value)) if isinstance(value, list) else [(None, value)]
            for i, node in items:
                if not isinstance(node, ast.AST) or id(node) in skip:
                    continue
                for v in variants(node):
                    ast.copy_location(v, node)
                    ast.fix_missing_locations(v)
                    if i is None:
                        setattr(parent, field, v)
                    else:
                        value[i] = v
                    text = ast.unparse(tree)
                    if i is None:
                        setattr(parent, field, node)
                    else:
                        value[i] = node
                    if text != base:
                        out.append((getattr(node, "lineno", 0), text))
    out.sort(key=lambda m: m[0])
    return base, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="+")
    ap.add_argument("--every", type=int, default=1)
    ap.add_argument("--offset", type=int, default=0)
    ap.add_argument("--cases", type=int, default=400)
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    copies = queue.Queue()
    root = tempfile.mkdtemp(prefix="mutate-", dir="/tmp")
    for j in range(a.jobs):
        d = os.path.join(root, str(j))
        shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns(".git"))
        shutil.copytree(VERIF, d + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence"))
        copies.put(d)

    def run(job):
        file, base, line, text = job
        d = copies.get()
        target = os.path.join(d, "repo", "elsie", file)
        try:
            with open(target) as f:
                original = f.read()
            with open(target, "w") as f:
                f.write(text)
            env = dict(os.environ, ELSIE_REPO=d + "/repo", VERIF_SEED="1", VERIF_TIER="quick", VERIF_SHRINK_S="0")
            try:
                for c in PLAN[file].split():
                    p = subprocess.run([PY, "-B", "checks/run.py", c, "--tier", "quick", "--cases", str(a.cases), "--shards", "1"], cwd=d + "/verif", env=env,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=240)
                    if p.returncode == 1:
                        return job, c
                    if p.returncode != 0:
                        return job, "%s exits with %d: %s" % (c, p.returncode, p.stdout[-300:])
            except subprocess.TimeoutExpired:
                return job, "timeout " + c
            return job, None
        finally:
            with open(target, "w") as f:
                f.write(original)
            copies.put(d)

    jobs = []
    for file in a.files:
        with open("/repo/elsie/" + file) as f:
            base, ms = mutants(f.read())
        jobs += [(file, base, line, text) for line, text in ms[a.offset::a.every]]
    caught = {}
    try:
        with concurrent.futures.ThreadPoolExecutor(a.jobs) as pool:
            for (file, base, line, text), res in pool.map(run, jobs):
                caught.setdefault(file, []).append(res)
                if res is None or " " in res:
                    diff = [l for l in difflib.unified_diff(base.splitlines(), text.splitlines(), lineterm="", n=1)][2:]
                    print("%s:%d %s\n    %s" % (file, line, res or "SURVIVED", "\n    ".join(diff)), flush=True)
    finally:
        shutil.rmtree(root)
    for file, r in caught.items():
        print("%s: %d mutants, %d survived, %d undecided" % (file, len(r), r.count(None), sum(1 for x in r if x and " " in x)))


if __name__ == "__main__":
    main()
