"""C35: the same program gives the same output everywhere."""
import hashlib
import json
import os

from hypothesis import strategies as st

from vlib import cairo_util, decks, elsewhere, sut
from vlib.core import judged, require
from props import c15, c21, c34

ID = "C35"
RULE = ("decks of 1-4 slides with every drawing feature, shared images, styles, lists, Markdown, OpenRaster images and LaTeX snippets (stand-in compilers), with texts inside and outside of ASCII, built and rendered to drawings, "
        "exports and a document; the same in up to 3 other processes with other hash seeds, locales (ASCII, UTF-8), time zones, working and temporary directories, umasks and Python options (-O, -X dev); drawings, names and contents of the "
        "cache files and pages are compared (pixels for the Cairo backend); non-trivial: a text with characters outside of ASCII or three pages")
ASSUMPTIONS = ["only the C, POSIX and C.UTF-8 locales are installed here", "exports and measurements come from a simulated Inkscape"]
CASES = {"quick": 1500, "thorough": 30000}

WORDS = {"Hello": "H\u00e9ll\u03bb \u4e2d", "abc": "\u0161\u010d"}
ORA = {"size": [9, 8], "newline": True, "root": {}, "sources": [{"w": 2, "h": 2, "pixels": [1, 2, 3, 5], "mode": "RGBA"}],
                  "tree": [["layer", {"x": "1", "name": "a **2"}, 0], ["stack", {}, [["layer", {"y": "3", "name": "\u010d **1", "opacity": "0.5"}, 0]]]]}
TEX = ["$x$", "\u03bb \u00e9", "% \u4e2d"]


@st.composite
def strategy_(draw, tier):
    cairo = draw(st.integers(0, 9)) == 0
    v = draw(c15.case(tier, cairo))
    prog = v["prog"]
    prog["slides"] = prog["slides"][:4]
    for s in prog["slides"]:
        s["name"] = draw(st.sampled_from([None, None, "intro", "\u010d \u03bb"]))
    return {"prog": prog, "backend": "cairo" if cairo else "ink", "unicode": draw(st.booleans()), "ora": draw(st.integers(0, 3)) == 0 and not cairo, "tex": draw(st.sampled_from([[], [], [], [0], [1], [2, 1]])) if not cairo else [],
            "where": draw(st.lists(st.sampled_from(sorted(elsewhere.VARIANTS)), min_size=1, max_size=2, unique=True)), "debug": draw(st.integers(0, 7)) == 0}


def strategy(tier):
    return strategy_(tier)


def program(spec, env):
    """Build and render; the result is a JSON value."""
    prog = spec["prog"]
    if spec["unicode"]:
        text = json.dumps(prog)
        for a, b in WORDS.items():
            text = text.replace('"%s"' % a, json.dumps(b))
        prog = json.loads(text)
    cairo = spec["backend"] == "cairo"
    cache = os.path.join(env.root, "c35-cache")
    os.makedirs(cache, exist_ok=True)
    for n in os.listdir(cache):
        os.unlink(os.path.join(cache, n))
    deck = sut.make_deck(env, cache_dir=cache, backend="cairo" if cairo else None, debug=spec["debug"], **decks.deck_kwargs(prog))
    order = list(range(len(prog["slides"])))
    roots = c15.build(env, deck, prog, order)
    if spec["unicode"]:
        t = roots[0].box().text("~emph{\u03bb} \u00e9~#q{\u4e2d}\n\u20ac", scale_to_fit=True)
        t.inline_box("#q").rect(color="red")
    if spec["ora"]:
        path = os.path.join(env.root, "c35.ora")
        with open(path, "wb") as f:
            f.write(bytes.fromhex(spec["ora"]))
        roots[-1].box(width=50).image(path)
    if spec["tex"]:
        from elsie.ext.latex import latex

        tex = c34.compilers(env)
        for k, t in enumerate(TEX):
            src = "%s\n%s\n%s" % (c34.HEADER, t, c34.TAIL)
            tex.provide(src.encode(), c34.svg_of(k, {"wh": [10 + k, 20], "unit": "pt", "ids": ["a"], "refs": [["use", 0, 0]]}))
        for k in spec["tex"]:
            latex(roots[0].box(), TEX[k])
    if cairo:
        units = sut.render_units(deck, export_type="png")
        return {"drawings": [hashlib.sha1(cairo_util.pixels(u).encode("latin-1")).hexdigest() for u in units], "files": None, "queries": None, "pages": len(units)}
    units = sut.render_units(deck)
    out = os.path.join(env.root, "c35.pdf")
    deck.render(out)
    from props.c23 import pages_of

    files = {}
    queries = None
    for n in sorted(os.listdir(cache)):
        with open(os.path.join(cache, n), "rb") as f:
            data = f.read()
        if n == "queries3.cache":
            queries = json.loads(data.decode())
        elif not spec["debug"] or not n.endswith(".svg") or n.startswith("cache."):
            files[n] = hashlib.sha1(data).hexdigest()
        else:
            files[n] = data.decode("utf-8", "backslashreplace")
    return {"drawings": [u.get_svg() for u in units], "files": files, "queries": queries, "pages": [[w, h, [s.decode() for s in stamps]] for w, h, stamps in pages_of(out)]}


def check(spec, env):
    if spec["ora"]:
        # one file for all processes
        path = os.path.join(env.root, "c35.ora")
        c21.write(path, ORA, "ok")
        with open(path, "rb") as f:
            spec = dict(spec, ora=f.read().hex())
    with judged("a program"):
        want = program(spec, env)
    for where in spec["where"]:
        res = elsewhere.server(env, where).run(spec)
        require("died" not in res, "the process (%s) died: %s", where, res.get("died"))
        require("error" not in res, "the program fails in another process (%s): %s", where, res.get("error"))
        got = res["ok"]
        require(len(got["drawings"]) == len(want["drawings"]), "%s: %d pages instead of %d", where, len(got["drawings"]), len(want["drawings"]))
        for i, (a, b) in enumerate(zip(want["drawings"], got["drawings"])):
            if a != b:
                at = next((k for k, (c, d) in enumerate(zip(a, b)) if c != d), min(len(a), len(b)))
                require(False, "%s: page %d is drawn differently: %r instead of %r", where, i + 1, b[max(0, at - 60): at + 60], a[max(0, at - 60): at + 60])
        for key in ("queries", "files", "pages"):
            require(got[key] == want[key], "%s: %s differ: %s", where, key, difference(want[key], got[key]))
    labels = set(spec["where"]) | {spec["backend"]}
    for name in ("unicode", "ora", "tex", "debug"):
        if spec[name]:
            labels.add(name)
    if spec["unicode"] or len(want["drawings"]) >= 3:
        labels.add("nontrivial")
    return sorted(labels)


def difference(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        keys = [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]
        return ", ".join("%s: %s instead of %s" % (k, ascii(b.get(k))[:150], ascii(a.get(k))[:150]) for k in keys[:2])
    return "%s instead of %s" % (ascii(b)[:200], ascii(a)[:200])
