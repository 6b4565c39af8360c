"""Simulated Inkscapes with a log of what they were asked to do."""
import hashlib
import io
import json
import os
import re

from . import boot
from .core import require

VERSIONS = ["Inkscape 1.2.2 (b0a8486541, 2022-12-01)", "Inkscape 1.2.2 (b0a8486541, 2022-12-01)", "Inkscape 1.3 (0e150ed6c4, 2023-07-21)"]
TO_PATH = [False, True, False]


class Logged:
    def __init__(self, env, variant):
        from elsie.render.inkscape import InkscapeShell

        self.log = os.path.join(env.root, "ink-%d.log" % variant)
        plan = os.path.join(env.root, "ink-%d.plan" % variant)
        with open(plan, "w") as f:
            json.dump({"version": VERSIONS[variant]}, f)
        os.environ["FAKE_INK_LOG"] = self.log
        os.environ["FAKE_INK_PLAN"] = plan
        try:
            self.shell = InkscapeShell(boot.FAKE_INKSCAPE, text_to_path=TO_PATH[variant])
        finally:
            del os.environ["FAKE_INK_LOG"], os.environ["FAKE_INK_PLAN"]
        self.pos = 0

    def verif_close(self):
        self.shell.process.kill()

    def news(self):
        """(queries, exports) since the last call: [(digest of the document, query)], [(digest, type, text to path)]."""
        with open(self.log) as f:
            f.seek(self.pos)
            lines = f.read()
            self.pos = f.tell()
        queries, exports, doc = [], [], None
        for line in lines.splitlines():
            v = json.loads(line)
            if v[0] == "file-open":
                doc = v[1]
            elif v[0] == "query":
                queries.append((doc, v[1]))
            elif v[0] == "export":
                exports.append((v[4], v[2], v[7]))
        return queries, exports


def logged(env, variant):
    key = "logged%d" % variant
    s = env.shared.get(key)
    if s is None or s.shell.process.poll() is not None:
        s = env.shared[key] = Logged(env, variant)
    s.news()
    return s


def stamp(variant):
    return hashlib.sha1(("%s|%s" % (VERSIONS[variant], TO_PATH[variant])).encode()).hexdigest()


def content_of(path):
    """(digest of the drawing, stamp) of an export of the simulated Inkscape."""
    with open(path, "rb") as f:
        data = f.read()
    if data.startswith(b"%PDF"):
        m = re.search(rb"%% ([0-9a-f]{40})\n%% v-([0-9a-f]{40})\n", data)
        require(m is not None and data.endswith(b"%%EOF\n"), "%r is not a complete export", os.path.basename(path))
        return m.group(1).decode(), m.group(2).decode()
    from PIL import Image

    d = b"".join(bytes(p) for p in Image.open(io.BytesIO(data)).getdata())
    return d[:20].hex(), d[20:40].hex()
