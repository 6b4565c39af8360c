"""Programs run in processes with another environment: a server that builds and renders the programs it is sent.

Started with `python elsewhere.py ROOT`; one JSON value per line in both directions."""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))

VARIANTS = {
    # name: (arguments of Python, environment, working directory in the scratch directory, umask)
    "ascii": (["-B"], {"PYTHONHASHSEED": "1", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "LC_ALL": "C", "LANG": "C", "LANGUAGE": "C"}, "", 0o22),
    "optimized": (["-B", "-O"], {"PYTHONHASHSEED": "2", "LC_ALL": "C.UTF-8", "TZ": "Asia/Kathmandu", "COLUMNS": "20"}, "a b", 0o77),
    "utf8": (["-B", "-X", "dev"], {"PYTHONHASHSEED": "3", "PYTHONUTF8": "1", "LC_ALL": "POSIX", "TZ": "America/St_Johns"}, "\u010d", 0o22),
}


class Server:
    def __init__(self, env, variant):
        from . import boot

        args, extra, cwd, umask = VARIANTS[variant]
        root = env.fresh_dir("elsewhere-" + variant)
        work = os.path.join(root, cwd)
        # directories with names outside of ASCII where they can be named
        names = ("tmp", "scratch 2") if variant == "ascii" else ("\u010d 1", "\u03bb 2")
        tmp, scratch = [os.path.join(root, n) for n in names]
        os.makedirs(tmp, exist_ok=True)
        os.makedirs(scratch, exist_ok=True)
        os.makedirs(work, exist_ok=True)
        e = {k: v for k, v in os.environ.items() if k not in ("PYTHONHASHSEED", "LC_ALL", "LANG", "LC_CTYPE")}
        e.update(extra, TMPDIR=tmp, PYTHONWARNINGS="ignore")
        self.log = open(os.path.join(root, "log"), "wb")
        self.process = subprocess.Popen([boot.PYTHON] + args + [os.path.abspath(__file__), scratch], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log, cwd=work, env=e, umask=umask)

    def run(self, spec):
        self.process.stdin.write(json.dumps(spec).encode() + b"\n")
        self.process.stdin.flush()
        line = self.process.stdout.readline()
        if not line:
            self.log.flush()
            with open(self.log.name, "rb") as f:
                return {"died": f.read()[-600:].decode("utf-8", "replace")}
        return json.loads(line.decode())

    def verif_close(self):
        self.process.kill()
        self.process.wait()


def server(env, variant):
    key = "elsewhere-" + variant
    s = env.shared.get(key)
    if s is None or s.process.poll() is not None:
        s = env.shared[key] = Server(env, variant)
    return s


def main():
    sys.path.insert(0, os.path.dirname(HERE))
    from vlib import boot, runner

    boot.setup_paths()
    from props import c35

    out = os.fdopen(os.dup(1), "wb")
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    env = runner.Env(sys.argv[1])
    for line in sys.stdin.buffer:
        try:
            res = {"ok": c35.program(json.loads(line.decode()), env)}
        except Exception as e:
            import traceback

            tb = traceback.extract_tb(sys.exc_info()[2])
            res = {"error": "%s: %s [%s]" % (type(e).__name__, ascii(str(e))[:300], " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-3:])))}
        out.write(json.dumps(res).encode() + b"\n")
        out.flush()
    runner.cleanup(c35, env)


if __name__ == "__main__":
    main()
