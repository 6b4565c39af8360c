"""C40: what the real Inkscape makes of slides."""
import os
import re
import subprocess

from hypothesis import strategies as st

from props import c23, c31, c32
from vlib import decks, real, sut
from vlib.core import judged, require

ID = "C40"
RULE = ("all with the real Inkscape: suites png and pdf: 1-3 slides of 1-7 shapes and images (as in C31, and SVG images that share ids of gradients, clip paths, symbols and markers with other images), PDFs with raw PDFs between them or in grids, "
        "merged in both ways, with and without text-to-path; size of each page, and up to 220 points of each fragment against the painter's model of C31; suite text: a text of 1-6 coloured sections "
        "in several lines; the ink of the text against the box the text asks for, the ink of each section against its inline box, the ink of lines against their line boxes; suite chars: characters of exported pages; "
        "non-trivial: two items, or a view box, or two sections or fragments")
ASSUMPTIONS = ["points closer than 1.1 to an edge are not judged", "ink may be left of where a text starts, by the bearing of its first character, and likewise on the right", "SVG images do not contain style sheets (see the known finding)"]
CASES = {"quick": 2000, "thorough": 30000}


# ---------------------------------------------------------------- shapes and images

HOW = ["plain", "gradient", "clip", "use", "pattern", "group", "css"]


def picture(v):
    """Four quarters in an SVG image whose ids are those of any other image."""
    w, h = v["size"]
    defs, body = [], []
    for q, c in enumerate(c31.quad(v)):
        c = "#%02x%02x%02x" % c
        x, y = (q % 2) * w, (q // 2) * h
        place = "x='%d' y='%d' width='%d' height='%d'" % (x, y, w, h)
        if v["how"] == "gradient":
            defs.append("<linearGradient id='a%d'><stop offset='0' stop-color='%s'/><stop offset='1' stop-color='%s'/></linearGradient>" % (q, c, c))
            body.append("<rect %s %s/>" % (place, "fill='url(#a%d)'" % q if q % 2 else "style='fill:url(#a%d)'" % q))
        elif v["how"] == "clip":
            defs.append("<clipPath id='a%d'><rect %s/></clipPath>" % (q, place))
            body.append("<rect width='%d' height='%d' fill='%s' clip-path='url(#a%d)'/>" % (2 * w, 2 * h, c, q))
        elif v["how"] == "use":
            defs.append("<rect id='a%d' width='%d' height='%d' fill='%s'/>" % (q, w, h, c))
            body.append("<use xlink:href='#a%d' x='%d' y='%d'/>" % (q, x, y))
        elif v["how"] == "pattern":
            defs.append("<linearGradient id='b%d'><stop offset='0' stop-color='%s'/></linearGradient><linearGradient id='a%d' xlink:href='#b%d'/>" % (q, c, q, q))
            body.append("<rect %s fill='url(#a%d)'/>" % (place, q))
        elif v["how"] == "group":
            defs.append("<g id='a%d'><g id='b%d'><rect width='%d' height='%d' fill='%s'/></g></g>" % (q, q, w, h, c))
            body.append("<g transform='translate(%d %d)'><use xlink:href='#a%d'/></g>" % (x, y, q))
        elif v["how"] == "css":
            defs.append("<style>.a%d { fill: %s }</style>" % (q, c))
            body.append("<rect class='a%d' %s/>" % (q, place))
        else:
            body.append("<rect id='a%d' %s fill='%s'/>" % (q, place, c))
    return "<svg xmlns='http://www.w3.org/2000/svg' xmlns:xlink='http://www.w3.org/1999/xlink' width='%d' height='%d'><defs>%s</defs>%s</svg>" % (2 * w, 2 * h, "".join(defs), "".join(body))


def add_picture(env, box, v):
    box.image(decks.asset(env, ".svg", picture(v)), scale=v["scale"], rotation=v.get("rotation"))


@st.composite
def slide(draw, tier):
    s = draw(c31.strategy_(tier))
    for v in s["items"]:
        if v["what"] == "svg" and draw(st.integers(0, 3)):
            v.update(turned=draw(st.integers(0, 3)), how=draw(st.sampled_from(HOW[:-1])), unit="", inner=None)
    return s


@st.composite
def pages(draw, tier):
    grid = draw(st.sampled_from([None, None, None, [2, 1], [1, 2], [2, 2]]))
    parts = draw(st.lists(slide(tier), min_size=1, max_size=2))
    # Inkscape moves the points of shapes in nested drawings to convert texts, which moves dashes
    if grid is None and draw(st.booleans()):
        parts.insert(draw(st.integers(0, len(parts))), {"pdf": draw(st.integers(0, 3))})
    return {"slides": parts, "to_path": grid is None and draw(st.booleans()), "merger": draw(st.sampled_from(["pypdf", "pypdf", "pdfunite"])), "grid": grid}


def page_pictures(env, path):
    """The pages by an independent renderer, at 96 dpi."""
    from PIL import Image

    d = env.fresh_dir("pages")
    p = subprocess.run(["pdftocairo", "-r", "96", "-png", path, os.path.join(d, "p")], capture_output=True, text=True)
    require(p.returncode == 0, "pdftocairo: %s", p.stderr[:200])
    out = []
    for n in sorted(os.listdir(d)):
        im = Image.open(os.path.join(d, n))
        im.load()
        out.append(im)
    env.drop(d)
    return out


def loaded(path):
    from PIL import Image

    with Image.open(path) as im:
        im.load()
        return im


def check(spec, env, kind):
    labels = set()
    # Inkscape does not clip nested drawings in bitmaps
    grid = tuple(spec["grid"] or (1, 1)) if kind == "pdf" else (1, 1)
    slides = [s for s in spec["slides"] if kind == "pdf" or "pdf" not in s]
    own = [s for s in slides if "pdf" not in s]
    if not own:
        return []
    wh = own[0]["wh"]
    out = os.path.join(env.root, "real.pdf")
    with judged("pages made by Inkscape"):
        deck = real.make_deck(env, spec["to_path"], width=wh[0], height=wh[1])
        cells = []  # (slide, fragment) or (raw PDF, page)
        for s in slides:
            if "pdf" in s:
                deck.add_pdf(decks.asset(env, ".pdf", c23.raw_pdf(s["pdf"])))
                cells += [(s, k) for k in range(c23.RAW_PAGES[s["pdf"]])]
                labels.add("raw PDF")
            else:
                s["wh"] = wh
                for v in s["items"]:
                    if kind == "pdf" and v["what"] == "rect":
                        v["dash"] = None  # libcairo draws rectangles in PDFs from another corner
                c31.build(env, s, None, add_picture, deck=deck)
                cells += [(s, step) for step in range(1, c31.steps_of(s) + 1)]
        args = {} if grid == (1, 1) else {"slides_per_page": grid}
        if kind == "png":
            files = deck.render(None, export_type="png", **args)
            ims = [loaded(f) for f in files]
        else:
            if os.path.exists(out):
                os.unlink(out)
            deck.render(out, pdf_merger=spec["merger"], **args)
            require(os.path.isfile(out), "no document")
            ims = page_pictures(env, out)
            labels.add(spec["merger"])
        n = grid[0] * grid[1]
        require(len(ims) == (len(cells) + n - 1) // n, "%d pages for %d fragments, %d per page", len(ims), len(cells), n)
        for i, (s, step) in enumerate(cells):
            im = ims[i // n]
            what = "page %d" % (i // n + 1)
            if "pdf" in s:
                size = (100 + 10 * s["pdf"], 50 + 10 * step)
                require(all(abs(a - b * 96 / 72) <= 1 for a, b in zip(im.size, size)), "%s has the size %r, expected that of a raw PDF, %r pt", what, im.size, size)
                got = im.convert("RGB").getpixel((im.size[0] // 2, im.size[1] // 2))
                require(c23.near(got, c23.raw_colour(s["pdf"], step)), "%s has the colour %r, expected that of page %d of a raw PDF, %r", what, got, step + 1, c23.raw_colour(s["pdf"], step))
                continue
            require(im.size == (wh[0] * grid[0], wh[1] * grid[1]), "%s has the size %r", what, im.size)
            if n > 1:
                x, y = i % n % grid[0] * wh[0], i % n // grid[0] * wh[1]
                im = im.crop((x, y, x + wh[0], y + wh[1]))
                what += ", part %d" % (i % n + 1)
                labels.add("grid")
            count, _ = c31.judge(im, s, step, "%s: %s" % (what, "pixel" if kind == "png" else "point"), kind == "pdf", 2 if n > 1 else 0)
            if count > 60:
                labels.add("60+ points judged")
        if n > 1 and len(cells) % n:
            # the rest of the last page stays empty
            for i in range(len(cells) % n, n):
                x, y = i % grid[0] * wh[0], i // grid[0] * wh[1]
                rest = ims[-1].convert("L").crop((x + 1, y + 1, x + wh[0] - 1, y + wh[1] - 1)).getextrema()
                require(rest == (255, 255), "part %d of the last page is not empty", i + 1)
    for s in own:
        labels.update(v["how"] for v in s["items"] if "how" in v)
        if len(s["items"]) > 1 or s["view_box"]:
            labels.add("nontrivial")
    return sorted(labels)


# ---------------------------------------------------------------- texts

@st.composite
def text_strategy(draw, tier):
    v = draw(c32.text_slide())
    v["rotation"] = None
    v["view_box"] = None
    v["to_path"] = draw(st.booleans())
    return v


def inks(im):
    """c32.inks of a large and mostly empty picture."""
    area = im.convert("RGBA").getchannel("A").getbbox()
    if area is None:
        return {}
    out = c32.inks(im.crop(area))
    for p in out.values():
        if p[2] >= 0:
            p[:4] = [p[0] + area[0], p[1] + area[1], p[2] + area[0], p[3] + area[1]]
    return out


def check_text(v, env):
    import elsie

    labels = set()
    sections = [i for i, s in enumerate(v["sections"]) if s["tag"] and "\n" not in s["text"]]
    lines = c32.text_of(v).count("\n") + 1
    W, H, M = 1300, 1300, 200
    with judged("a text"):
        deck = real.make_deck(env, v["to_path"], width=W, height=H)
        slide = deck.new_slide()
        for i, s in enumerate(v["sections"]):
            slide.set_style("s%d" % i, elsie.TextStyle(color=c32.NAMES[i], **c32.STYLES[s["style"]]))
        w, h = v["box"]
        box = slide.box(x=v["at"][0] + M, y=v["at"][1] + M, width=w, height=h)
        style = dict(size=v["size"], font=v["font"], align=v["align"], line_spacing=v["spacing"], color="black")
        if v["bold"]:
            style["bold"] = True
        t = box.text(c32.text_of(v), elsie.TextStyle(**style), scale_to_fit=v["fit"])
        box.overlay(show="2").rect(bg_color="#ff8800")
        for k, i in enumerate(sections):
            t.inline_box("#n%d" % i, show=str(3 + k)).rect(bg_color="#ff8800")
        for k in range(lines):
            t.line_box(k, show=str(3 + len(sections) + k)).rect(bg_color="#ff8800")
        ims = [loaded(f) for f in deck.render(None, export_type="png")]
        require(len(ims) == 2 + len(sections) + lines, "%d fragments", len(ims))
    planes = [inks(im) for im in ims]
    plain = {n: p for n, p in planes[0].items() if p[2] >= 0 and p[4] >= 6}
    require("frame" not in planes[0] or planes[0]["frame"][4] < 3, "something else than the text is drawn")
    # every section is drawn in its colour
    for i, s in enumerate(v["sections"]):
        if v["size"] * len(s["text"].strip()) > 12 and v["box"] == [None, None]:
            require(c32.NAMES[i] in plain, "section %d is not drawn", i)
    if not plain:
        return sorted(labels)
    frame = planes[1].get("frame")
    ink = [min(p[0] for p in plain.values()), min(p[1] for p in plain.values()), max(p[2] for p in plain.values()), max(p[3] for p in plain.values())]
    k = 1.0
    if v["fit"]:
        first = planes[2 + len(sections)].get("frame")
        k = max(0.1, (first[3] - first[1]) / (v["size"] * v["spacing"])) if first else 1.0
    bearing = 0.2 * v["size"] * k + 2
    # letters stick out of lines that are not higher than them
    above = 0.3 * v["size"] * k + 2
    if frame and frame[4] > 20:
        require(frame[0] - bearing <= ink[0] and ink[2] <= frame[2] + bearing, "the text extends over %r, its box over %r", ink, frame[:4])
        require(frame[1] - above <= ink[1] and ink[3] <= frame[3] + above, "the text extends over %r, its box over %r", ink, frame[:4])
        if not v["fit"] and v["box"][0] is None:
            require(frame[2] - frame[0] <= ink[2] - ink[0] + 2.5, "the text is as wide as %r, its box as %r", ink, frame[:4])
            require(frame[2] - frame[0] >= ink[2] - ink[0] - 2.5, "the text is as wide as %r, its box as %r", ink, frame[:4])
            labels.add("own width")
        if v["fit"]:
            fw, fh = frame[2] - frame[0] + 1, frame[3] - frame[1] + 1
            # either the width or the height is used up
            high = (first[3] - first[1]) * lines if first else 0
            full = ink[2] - ink[0] >= 0.92 * fw - 3 or high >= 0.97 * fh - 3
            require(full, "the text extends over %r, but fits into %r (%d lines, the first extends over %r)", ink, frame[:4], lines, first and first[:4])
            labels.add("fit")
    for j, i in enumerate(sections):
        got, f = plain.get(c32.NAMES[i]), planes[2 + j].get("frame")
        if got is None or got[4] < 12:
            continue
        # tags are spelled alike in one text only once
        require(f is not None, "nothing is drawn in the box of section %d", i)
        tol = 2.2
        require(abs(got[0] - f[0]) <= tol and abs(got[2] - f[2]) <= tol, "section %d extends over %r, its box over %r", i, got[:4], f[:4])
        require(f[1] - above <= got[1] and got[3] <= f[3] + above, "section %d extends over %r, its box over %r", i, got[:4], f[:4])
        labels.add("inline box")
    # lines
    if frame and frame[4] > 20:
        lf = [planes[2 + len(sections) + k].get("frame") for k in range(lines)]
        for k, f in enumerate(lf):
            require(f is not None, "nothing is drawn in the box of line %d", k)
            require(abs(f[0] - frame[0]) <= 1 and abs(f[2] - frame[2]) <= 1, "the box of line %d extends over %r, that of the text over %r", k, f[:4], frame[:4])
        line = 0
        for i, s in enumerate(v["sections"]):
            line += s["before"].count("\n")
            got = plain.get(c32.NAMES[i])
            last = line + s["text"].count("\n")
            if got is not None and got[4] >= 12:
                require(lf[line][1] - above <= got[1] and got[3] <= lf[last][3] + above, "section %d extends over %r, its lines over %r to %r", i, got[:4], lf[line][:4], lf[last][:4])
                middle = (lf[line][1] + lf[line][3]) / 2
                require(got[1] <= lf[line][3] and got[3] >= middle - 0.5 * (lf[line][3] - lf[line][1]), "section %d extends over %r, its first line over %r", i, got[:4], lf[line][:4])
            line = last
        labels.add("%d lines" % min(lines, 3))
    if len(v["sections"]) > 1:
        labels.add("nontrivial")
    return sorted(labels)


# ---------------------------------------------------------------- characters

def char_strategy(tier):
    return st.tuples(c32.char_strategy(tier), st.integers(0, 5)).map(lambda p: dict(p[0], to_path=p[1] == 0))


def check_chars(spec, env):
    out = os.path.join(env.root, "chars.pdf")
    if os.path.exists(out):
        os.unlink(out)
    with judged("the document"):
        deck = c32.char_deck(env, spec, real.make_deck(env, spec["to_path"], width=1600, height=1200))
        deck.render(output=out, save_cache=False, prune_cache=False)
        require(os.path.isfile(out), "no document")
    c32.judge_chars(spec, out, spec["to_path"])
    return ["text-to-path" if spec["to_path"] else "text"] + (["nontrivial"] if len(spec["slides"]) > 1 else [])


SUITES = {"png": {"strategy": pages, "check": lambda spec, env: check(spec, env, "png"), "share": 0.35}, "pdf": {"strategy": pages, "check": lambda spec, env: check(spec, env, "pdf"), "share": 0.35},
          "text": {"strategy": text_strategy, "check": check_text, "share": 0.2}, "chars": {"strategy": char_strategy, "check": check_chars, "share": 0.1}}
