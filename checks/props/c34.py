"""C34: LaTeX."""
import hashlib
import os
import re
import subprocess

from hypothesis import strategies as st

from vlib import cairo_util, decks, geom, sut
from vlib.core import expect_reject, judged, require

ID = "C34"
RULE = ("histories of 1-3 decks over one cache directory, each with 1-5 snippets (drawn from 1-4 sources that share identifiers, in boxes of any geometry, with scales, selectors and through items), with failing compilers, retries and pruning in between; "
        "/usr/bin/pdflatex and /usr/bin/pdf2svg are replaced by programs that record their input and answer with SVG made for exactly the expected source (symbols, clips, gradients, masks with clashing, prefixed and odd identifiers); "
        "non-trivial: two snippets with a common identifier on one slide, a source used twice, or a failure")
ASSUMPTIONS = ["snippets are compiled by processes started with subprocess", "references are attributes (as pdf2svg writes them)"]
CASES = {"quick": 2400, "thorough": 25000}

IDS = ["glyph0-1", "glyph0-10", "glyph0", "clip1", "clip10", "a.b", "a+b", "a_b", "x:y", "surface1"]
UNIT = {"pt": 4 / 3, "px": 1.0, "": 1.0, "mm": 96 / 25.4}
SOURCE = st.one_of(st.sampled_from(["$x$", "$x$ ", "\\\\frac{1}{2}", "%comment", "a\n\nb", "$\\alpha$ é", ""]), st.text(alphabet="ab$\\ {}\n%~é", max_size=6))


@st.composite
def snippet(draw):
    # Long sources that differ at one end only
    text = draw(SOURCE)
    filler = "% long\n" * draw(st.sampled_from([0, 0, 0, 0, 50, 700]))
    v = {"text": draw(st.sampled_from([filler + text, text + filler])), "header": draw(st.one_of(st.none(), st.none(), st.sampled_from(["\\h", "", "a"]))), "tail": draw(st.one_of(st.none(), st.none(), st.sampled_from(["\\t", "", "b"]))),
         "wh": [draw(st.sampled_from([3, 10.5, 24, 60.25])), draw(st.sampled_from([2, 7.25, 18, 40]))], "unit": draw(st.sampled_from(["pt", "pt", "pt", "px", "", "mm"])),
         "ids": draw(st.lists(st.sampled_from(IDS), min_size=1, max_size=5, unique=True))}
    v["refs"] = draw(st.lists(st.tuples(st.sampled_from(["use", "clip", "style", "quoted", "two", "href"]), st.integers(0, 9), st.integers(0, 9)).map(list), min_size=1, max_size=5))
    return v


SIZE = st.one_of(st.none(), st.none(), st.integers(1, 150), st.just("fill"), st.integers(10, 90).map(lambda p: "%d%%" % p))


@st.composite
def use(draw, snips):
    return {"snip": draw(st.integers(0, snips - 1)), "scale": draw(st.sampled_from([None, 1, 2, 0.5, 3.25])), "w": draw(SIZE), "h": draw(SIZE), "x": draw(st.one_of(st.none(), st.integers(0, 90), st.just("[100%]"))),
            "pad": draw(st.sampled_from([None, None, 3, 10])), "show": draw(st.sampled_from([None, None, None, "2", "1", "2+"])), "new": draw(st.integers(0, 2)) == 0, "via": draw(st.integers(0, 3)) == 0,
            "fail": draw(st.sampled_from([None] * 7 + ["latex", "nolog", "pdf", "broken"]))}


@st.composite
def strategy_(draw, tier):
    n = draw(st.integers(1, 4))
    deck = st.fixed_dictionaries({"uses": st.lists(use(n), min_size=1, max_size=5 if tier == "quick" else 9), "prune": st.booleans(), "render": st.integers(1, 2)})
    return {"snips": [draw(snippet()) for _ in range(n)], "decks": draw(st.lists(deck, min_size=1, max_size=3)), "cairo": draw(st.integers(0, 9)) == 0}


def strategy(tier):
    return strategy_(tier)


# ---------------------------------------------------------------- the simulated compilers

PDFLATEX = """#!/bin/sh
for f; do :; done
b="${f%.tex}"
echo "latex" >> "$VERIF_TEX/log"
[ -e "$VERIF_TEX/nolog" ] || echo "log of $f" > "$b.log"
[ -e "$VERIF_TEX/latex" -o -e "$VERIF_TEX/nolog" ] && exit 1
cp "$f" "$b.pdf"
"""
PDF2SVG = """#!/bin/sh
echo "svg" >> "$VERIF_TEX/log"
[ -e "$VERIF_TEX/pdf" ] && { echo "no pdf" >&2; exit 2; }
[ -e "$VERIF_TEX/broken" ] && { echo "<svg><g" > "$2"; exit 0; }
h="$(md5sum < "$1")"
cp "$VERIF_TEX/${h%% *}.svg" "$2"
"""


class Compilers:
    """Stand-ins for the two programs."""

    def __init__(self, env):
        self.dir = os.path.join(env.root, "tex")
        os.makedirs(self.dir, exist_ok=True)
        self.programs = {}
        for name, text in (("pdflatex", PDFLATEX), ("pdf2svg", PDF2SVG)):
            path = self.programs[name] = os.path.join(self.dir, name)
            with open(path, "w") as f:
                f.write(text)
            os.chmod(path, 0o755)
        os.environ["VERIF_TEX"] = self.dir
        real = subprocess.Popen
        programs = self.programs

        class Popen(real):
            def __init__(self, args, *more, **kw):
                if isinstance(args, (list, tuple)) and args:
                    stand_in = programs.get(os.path.basename(str(args[0])))
                    if stand_in:
                        args = [stand_in] + list(args[1:])
                super().__init__(args, *more, **kw)

        subprocess.Popen = Popen

    def reset(self):
        for name in os.listdir(self.dir):
            if name not in self.programs:
                os.unlink(os.path.join(self.dir, name))

    def provide(self, source, svg):
        with open(os.path.join(self.dir, hashlib.md5(source).hexdigest() + ".svg"), "w") as f:
            f.write(svg)

    def fail(self, how):
        for name in ("latex", "nolog", "pdf", "broken"):
            path = os.path.join(self.dir, name)
            if name == how:
                open(path, "w").close()
            elif os.path.exists(path):
                os.unlink(path)

    def runs(self):
        try:
            with open(os.path.join(self.dir, "log")) as f:
                return f.read().split()
        except FileNotFoundError:
            return []


def compilers(env):
    c = env.shared.get("tex")
    if c is None:
        c = env.shared["tex"] = Compilers(env)
    c.reset()
    return c


HEADER = """
\\documentclass[varwidth,border=1pt]{standalone}
\\usepackage[utf8x]{inputenc}
\\usepackage{ucs}
\\usepackage{amsmath}
\\usepackage{amsfonts}
\\usepackage{amssymb}
\\usepackage{graphicx}
\\begin{document}"""
TAIL = "\\end{document}"


def source_of(v):
    return "%s\n%s\n%s" % (HEADER if v["header"] is None else v["header"], v["text"], TAIL if v["tail"] is None else v["tail"])


def svg_of(k, v):
    """The SVG of snippet k: a rectangle over all of it, definitions and references."""
    w, h = v["wh"]
    defs = ""
    for i, name in enumerate(v["ids"]):
        kind = i % 3
        d = "data-def='%d/%s'" % (k, name)
        defs += ["<g><symbol overflow='visible' id='%s' %s><path style='stroke:none;' d='M 0 0 L 1 1 '/></symbol></g>", "<clipPath id='%s' %s><path d='M 0 0 L 1 1 Z'/></clipPath>", "<linearGradient id='%s' %s/>"][kind] % (name, d)
    body = ""
    for kind, i, j in v["refs"]:
        a, b = v["ids"][i % len(v["ids"])], v["ids"][j % len(v["ids"])]
        r = "data-ref='%d/%s'" % (k, a)
        body += {"use": "<use xlink:href='#%s' x='1' y='2' %s/>" % (a, r), "href": "<use href='#%s' %s/>" % (a, r), "clip": "<g clip-path='url(#%s)' clip-rule='nonzero' %s><path d='M 0 0'/></g>" % (a, r),
                 "style": "<path style='stroke:#12ab34;fill:url(#%s);' d='M 0 0 L 1 1' %s/>" % (a, r), "quoted": "<path fill='url(\"#%s\")' stroke='#010203' %s/>" % (a, r),
                 "two": "<path fill='url(#%s)' mask='url( #%s )' data-ref='%d/%s %d/%s'/>" % (a, b, k, a, k, b)}[kind]
    return ("<?xml version='1.0' encoding='UTF-8'?><svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink' width='%s%s' height='%s%s' viewBox='0 0 %s %s' version='1.1'><defs>%s</defs>"
            "<rect x='0' y='0' width='%s' height='%s' style='fill:%s;' data-mark='%d'/><g id='top%d'>%s</g><text>#glyph0 #%s</text></svg>") % (
                w, v["unit"], h, v["unit"], w, h, defs, w, h, COLOURS[k], k, k, body, v["ids"][0])


COLOURS = ["#ff0000", "#00aa00", "#0000ff", "#aa00aa"]


# ---------------------------------------------------------------- programs

def build(env, tex, spec, d, backend, cache_dir, available, snips, labels):
    """Builds a deck, compiling where it has to be; returns (deck, uses per slide)."""
    from elsie.ext.latex import latex

    with judged("a new deck"):
        deck = sut.make_deck(env, backend=backend, cache_dir=cache_dir, width=400, height=300)
    slides = []
    used = set()
    for n, u in enumerate(d["uses"]):
        if u["new"] or not slides:
            with judged("a new slide"):
                slides.append((deck.new_slide(), []))
        slide, uses = slides[-1]
        k = u["snip"]
        v = snips[k]
        src = source_of(v)
        args = {a: u[b] for a, b in (("width", "w"), ("height", "h"), ("x", "x"), ("padding", "pad"), ("show", "show")) if u[b] is not None}
        kw = {a: v[a] for a in ("header", "tail") if v[a] is not None}
        if u["scale"] is not None:
            kw["scale"] = u["scale"]
        with judged("a box"):
            box = slide.box(**args)
            owner = box.rect(bg_color=sut.colour(n)) if u["via"] else box
            if not u["via"]:
                box.rect(bg_color=sut.colour(n))
        before = len(tex.runs())
        if src not in available and u["fail"]:
            tex.fail(u["fail"])
            expect_reject("a snippet whose compilation fails (%s)" % u["fail"], lambda: latex(owner, v["text"], **kw))
            tex.fail(None)
            labels.add("failure")
            labels.add("nontrivial")
            if u["fail"] in ("latex", "nolog"):
                require(tex.runs()[before:] == ["latex"], "a failing pdflatex: programs run were %r", tex.runs()[before:])
            uses.append((n, None, u))
            continue
        with judged("latex(%r)" % v["text"]):
            latex(owner, v["text"], **kw)
        ran = tex.runs()[before:]
        require(ran == ([] if src in available else ["latex", "svg"]), "snippet %r, %s: programs run were %r", v["text"], "compiled before" if src in available else "not compiled before", ran)
        if src in available:
            labels.add("compiled before")
            labels.add("nontrivial")
        available.add(src)
        used.add(src)
        uses.append((n, k, u))
    return deck, slides, used


def placed(root):
    """[(mark, rectangle)] of the snippets in a drawing, the elements that have an id, the references."""
    out, ids, refs = [], [], []

    def walk(e, m, top):
        if not isinstance(e.tag, str):
            return
        m = geom.mul(m, geom.parse_transform(e.get("transform")))
        if sut.local(e) == "svg" and not top:
            vb = [float(q) for q in e.get("viewBox").split()]
            px = []
            for name in ("width", "height"):
                t = re.match(r"^([\d.]+)([a-z]*)$", e.get(name) or "")
                require(t and t.group(2) in UNIT, "size %r of a snippet", e.get(name))
                px.append(float(t.group(1)) * UNIT[t.group(2)])
            m = geom.mul(m, geom.translate(float(e.get("x") or 0), float(e.get("y") or 0)))
            m = geom.mul(m, geom.scale(px[0] / vb[2], px[1] / vb[3]))
        if e.get("data-mark") is not None:
            p, q = geom.apply(m, (0, 0)), geom.apply(m, (float(e.get("width")), float(e.get("height"))))
            out.append((int(e.get("data-mark")), (p[0], p[1], q[0] - p[0], q[1] - p[1])))
        if e.get("id"):
            ids.append(e)
        if e.get("data-ref"):
            refs.append(e)
        for c in e:
            walk(c, m, False)

    walk(root, geom.ID, True)
    return out, ids, refs


def near(a, b):
    return all(abs(x - y) <= 0.01 + 1e-4 * abs(y) for x, y in zip(a, b))


def visible(show, step):
    return show is None or {"1": step == 1, "2": step == 2, "2+": step >= 2}[show]


def check_page(root, uses, snips, step, where, labels):
    found, ids, refs = placed(root)
    rects = sut.colour_rects(root)
    natural = {k: tuple(q * UNIT[v["unit"]] for q in v["wh"]) for k, v in enumerate(snips)}
    want = []
    for n, k, u in uses:
        if not visible(u["show"], step):
            continue
        area = rects.get(sut.colour(n))
        require(area and len(area) == 1, "%s: the box of snippet %d is not drawn", where, n)
        x, y, w, h = area[0]
        if k is None:
            continue
        s = u["scale"] or 1
        sw, sh = natural[k][0] * s, natural[k][1] * s
        if u["w"] is None or isinstance(u["w"], int):
            least = max(sw, (u["w"] or 0) - 2 * (u["pad"] or 0))
            require(abs(w - least) < 0.01 + 1e-4 * w, "%s: the inner width of the box of snippet %d is %s instead of %s", where, n, w, least)
        if u["h"] is None or isinstance(u["h"], int):
            least = max(sh, (u["h"] or 0) - 2 * (u["pad"] or 0))
            require(abs(h - least) < 0.01 + 1e-4 * h, "%s: the inner height of the box of snippet %d is %s instead of %s", where, n, h, least)
        require((u["w"] == "fill" or w > sw - 0.02 - 1e-4 * sw) and (u["h"] == "fill" or h > sh - 0.02 - 1e-4 * sh), "%s: the box of snippet %d is %s x %s, the snippet %s x %s", where, n, w, h, sw, sh)
        want.append((k, (x + w / 2 - sw / 2, y + h / 2 - sh / 2, sw, sh)))
    require(len(found) == len(want), "%s: %d snippets are drawn instead of %d", where, len(found), len(want))
    left = list(found)
    for k, area in want:
        # equal sources are the same snippet
        hit = next((f for f in left if source_of(snips[f[0]]) == source_of(snips[k]) and near(f[1], area)), None)
        require(hit, "%s: snippet %d is not drawn at %r; drawn are %r", where, k, area, left)
        left.remove(hit)
    # identifiers
    owner = {}
    for e in ids:
        d = e.get("data-def")
        k = d.split("/")[0] if d else re.sub(r"^top(\d).*$", r"\1", e.get("id"))
        src = source_of(snips[int(k)])
        require(owner.setdefault(e.get("id"), (src, d)) == (src, d), "%s: identifier %r is used by %r and %r", where, e.get("id"), owner[e.get("id")], (src, d))
    if len({s for s, _ in owner.values()}) > 1:
        labels.add("several sources on a slide")
        labels.add("nontrivial")
    for e in refs:
        wanted = e.get("data-ref").split()
        targets = []
        for name, value in e.attrib.items():
            if name.startswith("data-"):
                continue
            for t in re.findall(r"url\(\s*[\"']?#([^)\"'\s]+)[\"']?\s*\)", value) + ([value[1:]] if name.endswith("href") else []):
                targets.append(t)
        got = sorted(owner[t][1] if t in owner else "nothing (%s)" % t for t in targets)
        require(got == sorted(wanted), "%s: a reference to %r points to %r", where, wanted, got)
        if e.get("stroke"):
            require(e.get("stroke") == "#010203", "%s: colour #010203 became %r", where, e.get("stroke"))
        if "stroke" in (e.get("style") or ""):
            require("stroke:#12ab34;" in e.get("style"), "%s: style %r", where, e.get("style"))
    for e in root.iter():
        if isinstance(e.tag, str) and sut.local(e) == "text" and (e.text or "").startswith("#glyph0"):
            require(re.match(r"^#glyph0 #\S+$", e.text) and any(e.text == "#glyph0 #" + v["ids"][0] for v in snips), "%s: text of a snippet became %r", where, e.text)


def check(spec, env):
    labels = set()
    tex = compilers(env)
    snips = []
    for v in spec["snips"]:
        same = [w for w in snips if source_of(w) == source_of(v)]
        # one source has one result
        snips.append(dict(same[0], text=v["text"], header=v["header"], tail=v["tail"]) if same else v)
    for k, v in enumerate(snips):
        first = next(i for i, w in enumerate(snips) if source_of(w) == source_of(v))
        tex.provide(source_of(v).encode(), svg_of(first, v))
    tex.fail(None)
    cache_dir = sut.case_dir(env)
    available = set()
    backend = "cairo" if spec["cairo"] else None
    for i, d in enumerate(spec["decks"]):
        deck, slides, used = build(env, tex, spec, d, backend, cache_dir, available, snips, labels)
        for again in range(d["render"]):
            before = len(tex.runs())
            with judged("rendering deck %d" % (i + 1)):
                kw = {"export_type": "png"} if backend else {}
                units = sut.render_units(deck, save_cache=True, **kw)
                steps = [max([1] + [2 for _, _, u in uses if u["show"] and "2" in u["show"]]) for _, uses in slides]
                require(len(units) == sum(steps), "%d fragments instead of %d", len(units), sum(steps))
                j = 0
                for (_, uses), n in zip(slides, steps):
                    for step in range(1, n + 1):
                        where = "deck %d, slide fragment %d" % (i + 1, j + 1)
                        if backend:
                            pixels(cairo_util.picture(units[j]), uses, snips, step, where)
                        else:
                            check_page(sut.parse_svg(units[j].get_svg()), uses, snips, step, where, labels)
                        j += 1
            require(len(tex.runs()) == before, "rendering ran %r", tex.runs()[before:])
        if d["prune"]:
            before = len(tex.runs())
            with judged("rendering deck %d to files" % (i + 1)):
                deck.render(output=None, export_type="png", prune_cache=True)
            require(len(tex.runs()) == before, "rendering ran %r", tex.runs()[before:])
            # what this deck did not use is removed
            available &= used
        if i and labels & {"compiled before"}:
            labels.add("several decks")
    if spec["cairo"]:
        labels.add("cairo")
    return sorted(labels)


def pixels(im, uses, snips, step, where):
    """The sizes of the snippets in a picture, if there is one visible snippet."""
    shown = [(k, u) for _, k, u in uses if visible(u["show"], step)]
    if len(shown) != 1 or shown[0][0] is None:
        return
    k, u = shown[0]
    first = next(i for i, w in enumerate(snips) if source_of(w) == source_of(snips[k]))
    c = tuple(int(COLOURS[first][i: i + 2], 16) for i in (1, 3, 5))
    im = im.convert("RGBA")
    W = im.size[0]
    at = [(i % W, i // W) for i, p in enumerate(im.getdata()) if p[3] == 255 and max(abs(a - b) for a, b in zip(p, c)) < 8]
    s = (u["scale"] or 1) * UNIT[snips[k]["unit"]]
    w, h = (q * s for q in snips[k]["wh"])
    if w < 4 or h < 4 or w > 390 or h > 290:
        return
    require(at, "%s: the snippet is not painted", where)
    xs, ys = [p[0] for p in at], [p[1] for p in at]
    if max(xs) >= W - 2 or max(ys) >= im.size[1] - 2 or min(xs + ys) <= 1:
        return  # cut off
    got = (max(xs) - min(xs) + 1, max(ys) - min(ys) + 1)
    require(abs(got[0] - w) < 2.1 and abs(got[1] - h) < 2.1, "%s: the snippet is painted with the size %r instead of %r", where, got, (w, h))
