"""C42: code blocks of the documentation."""
import base64
import contextlib
import hashlib
import os
import re

from hypothesis import strategies as st

from vlib import boot, decks, ink, page, plugins, sut
from vlib.core import judged, require

ID = "C42"
RULE = ("1-3 pages for one plugin, of 1-6 segments: prose, blocks of other languages (with nested fences), blocks of library code and Elsie blocks with any combination of width, height, border, debug, skip and type, fenced by backticks or tildes, indented or not, "
        "whose code draws boxes, texts, images of the documentation directory and fragments, calls library functions, has loops, blank lines and several slides, is indented or surrounded by lines to be skipped; blocks may fail; "
        "lines of the result, drawings (SVG) or pictures (PNG) and the working directory are compared with a model that runs the code alone; suite docs: the pages of the user guide itself, in any order and with prose before them; "
        "non-trivial: an Elsie block that uses a library function, is skipped partly, or has a fragment")
ASSUMPTIONS = ["pictures are made by a simulated Inkscape, which identifies the drawing of each", "a stand-in for MkDocs, which cannot be imported here", "a block is closed by a fence of three characters, and inside it fences of the other character come in pairs"]

PROSE = ["Some text.", "", "# Heading", "* item", "    indented", "Use `code` or ``more``.", "\u00e9 \u03bb & <b>x</b>", "~~gone~~", "a | b", "text ```not a fence```", "slide.box()", "1. one", "> quote", "trailing  "]
BLOCK = ["x = 1", "", "    y = 2", "elsie", "# comment", "slide.box()", "<svg>", "\u010d"]


@st.composite
def other(draw):
    fence = draw(st.sampled_from("`~"))
    lines = draw(st.lists(st.sampled_from(BLOCK), max_size=4))
    if draw(st.integers(0, 3)) == 0:
        f = {"`": "~", "~": "`"}[fence] * 3
        lines[1:1] = [f + draw(st.sampled_from(["python", "elsie", "elsie,width=100"])), "slide.box()", f]
    return {"t": "other", "fence": fence, "indent": draw(st.sampled_from([0, 0, 0, 2])), "lang": draw(st.sampled_from(["python", "", "sh", "elsiex", "text", "python,elsie"])), "lines": lines}


@st.composite
def lib(draw):
    return {"t": "lib", "fence": draw(st.sampled_from("`~")), "indent": 0, "name": draw(st.integers(0, 2)), "mark": draw(st.integers(0, 200)), "blank": draw(st.booleans())}


@st.composite
def statement(draw):
    what = draw(st.sampled_from(["box", "box", "box", "show", "lib", "lib", "loop", "call", "image", "text", "slide", "other slide", "decorator", "nested", "fail"]))
    return {"what": what, "mark": draw(st.integers(300, 900)), "w": draw(st.integers(5, 60)), "h": draw(st.integers(5, 60)), "k": draw(st.integers(0, 2)), "sub": draw(st.integers(0, 9)) == 0}


@st.composite
def elsie_block(draw):
    v = {"t": "elsie", "fence": draw(st.sampled_from("``~")), "indent": draw(st.sampled_from([0, 0, 0, 2, 4])), "body": draw(st.lists(statement(), max_size=4)), "blank": draw(st.lists(st.integers(0, 8), max_size=2)), "args": []}
    for name, values in (("width", ["200", "450", "77"]), ("height", ["120", "300"]), ("border", ["yes", "no", "no", None]), ("debug", ["yes", "no", None])):
        if draw(st.integers(0, 2)) == 0:
            v["args"].append([name, draw(st.sampled_from(values))])
    if draw(st.integers(0, 5)) == 0:
        v["args"].append(["type", "render"])
    v["skip"] = draw(st.sampled_from([None, None, "def", "start", "both", "count", "zero"]))
    v["before"] = draw(st.integers(1, 2))
    v["after"] = draw(st.integers(1, 2))
    v["args"] = draw(st.permutations(v["args"]))
    v["at"] = draw(st.integers(0, 4))
    return v


@st.composite
def strategy_(draw, tier):
    seg = st.one_of(elsie_block(), elsie_block(), elsie_block(), lib(), other(), st.fixed_dictionaries({"t": st.just("prose"), "lines": st.lists(st.sampled_from(PROSE), max_size=4)}))
    pages = draw(st.lists(st.lists(seg, min_size=1, max_size=6 if tier == "quick" else 12), min_size=1, max_size=3))
    return {"pages": pages, "format": draw(st.sampled_from(["svg", "svg", "png", None])), "unclosed": draw(st.one_of(st.none(), st.none(), st.none(), other(), elsie_block())), "order": draw(st.booleans())}


def strategy(tier):
    return strategy_(tier)


def code_of(v, libs):
    """(lines of the code, does it fail)."""
    out = []
    fails = False
    for n, s in enumerate(v["body"]):
        owner = "slide" if not s["sub"] else "slide.box()"
        rect = "rect(bg_color=%r)" % sut.colour(s["mark"])
        size = "width=%d, height=%d" % (s["w"], s["h"])
        if s["what"] == "show":
            out.append("%s.box(%s, show=%r).%s" % (owner, size, ["2+", "next", "1-2"][s["k"]], rect))
        elif s["what"] == "lib":
            out.append("helper%d(%s, %d)" % (s["k"], owner, s["mark"]))
            fails = fails or s["k"] not in libs
        elif s["what"] == "loop":
            out += ["for i in range(%d):" % (s["k"] + 1), "    b = slide.box(%s)" % size, "", "    b.%s" % rect]
        elif s["what"] == "call":
            out += ["slide.box(", "    width=%d," % s["w"], "        height=%d" % s["h"], ").%s" % rect]
        elif s["what"] == "image":
            out.append("%s.box(width=%d).image('pic%d.png')" % (owner, s["w"], s["k"] % 2))
        elif s["what"] == "text":
            out.append("%s.box().text('a <b> & %d\\\\n\u00e9')" % (owner, s["mark"]))
        elif s["what"] == "slide":
            out += ["slide = slides.new_slide()", "slide.box(%s).%s" % (size, rect)]
        elif s["what"] == "other slide":
            out += ["other = slides.new_slide(bg_color='#%06x')" % s["k"], "other.box(%s).%s" % (size, rect)]
        elif s["what"] == "decorator":
            out += ["@slides.slide()", "def made(slide):", "    slide.box(%s, show=%d).%s" % (size, s["k"] + 1, rect)]
        elif s["what"] == "nested" and v["skip"] is None:
            f = {"`": "~", "~": "`"}[v["fence"]] * 3
            out += ["slide.box().text(len('''", f + "python", "x", f, "''') * 'a')"]
        elif s["what"] == "fail" and s["sub"]:
            out.append("unknown_name_%d" % n)
            fails = True
        else:
            out.append("%s.box(%s).%s" % (owner, size, rect))
    for k in v["blank"]:
        # not inside of strings
        if "slide.box().text(len('''" not in out:
            out.insert(min(k, len(out)), "" if v["at"] else " ")
    return out, fails


def lib_lines(v):
    out = ["def helper%d(box, n):" % v["name"], "    b = box.box(width=%d, height=9)" % (v["mark"] + 1), "    b.rect(bg_color='#%%06x' %% (n + %d))" % v["mark"]]
    if v["blank"]:
        out.insert(1, "")
        out.append("")
    return out


def layout(spec, n, segs):
    """The lines of a page: [("same", line) | ("header", line, result) | ("drawing", lib, code, fails, block)]."""
    out = []
    libs = {}
    lib_code = []

    def fence(v, header, lines):
        pad = " " * v["indent"]
        out.append(("header", pad + v["fence"] * 3 + header, pad + v["fence"] * 3 + ("python" if v["t"] in ("lib", "elsie") else header)))
        out.extend(("same", pad + x if x else x) for x in lines)

    for i, v in enumerate(segs):
        out.append(("same", "Mark %d-%d." % (n, i)))
        if v["t"] == "prose":
            out.extend(("same", x) for x in v["lines"])
            continue
        close = ("same", " " * v["indent"] + v["fence"] * 3)
        if v["t"] == "other":
            fence(v, v["lang"], v["lines"])
            out.append(close)
        elif v["t"] == "lib":
            lines = lib_lines(v)
            fence(v, "elsie,type=lib", lines)
            out.append(close)
            libs[v["name"]] = True
            lib_code = lib_code + lines
        else:
            body, fails = code_of(v, libs)
            args = [k if x is None else "%s=%s" % (k, x) for k, x in v["args"]]
            shown = body
            skip = v["skip"]
            before = ["raise Exception('skipped')"] * v["before"]
            after = ["raise Exception('skipped')"] * v["after"]
            if skip == "def":
                shown = ["@slides.slide()", "def intro(slide):"] + ["    " + x if x else x for x in body]
                args.insert(min(v["at"], len(args)), "skip=2")
            elif skip == "start":
                shown = before + body
                args.insert(min(v["at"], len(args)), "skip=%d" % len(before))
            elif skip == "both":
                shown = before + body + after
                args.insert(min(v["at"], len(args)), "skip=%d:-%d" % (len(before), len(after)))
            elif skip == "count":
                shown = before + body + after
                args.insert(min(v["at"], len(args)), "skip=%d:%d" % (len(before), len(before) + len(body)))
            elif skip == "zero":
                args.insert(min(v["at"], len(args)), "skip=0")
            fence(v, ",".join(["elsie"] + args), shown)
            out.append(close)
            out.append(("drawing", list(lib_code), body, fails, dict((k, "yes" if x is None else x) for k, x in v["args"])))
    out.append(("same", "End of page %d." % n))
    if spec["unclosed"] is not None and n == len(spec["pages"]) - 1:
        v = dict(spec["unclosed"], indent=0)
        header = v["lang"] if v["t"] == "other" else "python"
        lines = v["lines"] if v["t"] == "other" else code_of(dict(v, skip="x"), libs)[0]
        v["t"] = "other"
        fence(v, header, [x for x in lines if not x.startswith(("```", "~~~"))])
    return out


@contextlib.contextmanager
def default_deck(env):
    """Decks without a backend get the simulated Inkscape of this process."""
    import elsie

    real = elsie.SlideDeck

    def make(*args, **kwargs):
        if kwargs.get("backend") is None:
            from elsie.render.backends import InkscapeBackend

            d = sut.case_dir(env)
            kwargs["backend"] = InkscapeBackend(inkscape=sut.shell(env), cache_dir=d)
            kwargs["cache_dir"] = d
        return real(*args, **kwargs)

    old = os.environ.get("ELSIE_INKSCAPE")
    os.environ["ELSIE_INKSCAPE"] = boot.FAKE_INKSCAPE
    elsie.SlideDeck = make
    try:
        yield
    finally:
        elsie.SlideDeck = real
        if old is None:
            del os.environ["ELSIE_INKSCAPE"]
        else:
            os.environ["ELSIE_INKSCAPE"] = old


def reference(env, docs, lib_code, body, args):
    """The drawings of a block."""
    deck = sut.make_deck(env, width=int(args.get("width", 300)), height=int(args.get("height", 300)))
    kw = {"debug_boxes": True} if args.get("debug") == "yes" else {}
    names = {"slides": deck, "slide": deck.new_slide(bg_color="white", **kw)}
    if args.get("border", "yes") == "yes":
        names["slide"].rect(color="black")
    old = os.getcwd()
    os.chdir(docs)
    try:
        exec(compile("\n".join(lib_code + body), "reference", "exec"), names)
        units = sut.render_units(deck)
        return [u.get_svg() for u in units if u.slide is units[-1].slide]
    finally:
        os.chdir(old)


def view(env, html, fmt, where):
    """What a view shows."""
    pg = page.Page(html)
    require(not pg.problems, "%s: the HTML of the drawing: %s", where, pg.problems[:3])
    tops = [e for e in pg.root.children if e.find("elsie-step")]
    require(len(tops) == 1, "%s: %d drawings for one block", where, len(tops))
    steps = tops[0].find("elsie-step")
    if fmt == "svg":
        return [decks.canonical(sut.parse_svg(e.source.strip())) for e in steps]
    out = []
    for e in steps:
        require(len(e.children) == 1 and e.children[0].tag == "img", "%s: a fragment of a picture holds %r", where, [c.tag for c in e.children])
        m = re.fullmatch(r"\s*data:image/png;base64,(.*)", e.children[0].attrs.get("src", ""), re.S)
        require(m is not None, "%s: the source of a picture starts with %r", where, e.children[0].attrs.get("src", "")[:40])
        path = os.path.join(env.root, "view.png")
        with open(path, "wb") as f:
            f.write(base64.b64decode("".join(m.group(1).split()), validate=True))
        out.append(ink.content_of(path)[0])
    return out


def docs_dir(env):
    d = env.shared.get("c42-docs")
    if d is None:
        d = env.shared["c42-docs"] = env.fresh_dir("docs")
        for k in (0, 1):
            with open(os.path.join(d, "pic%d.png" % k), "wb") as f:
                f.write(decks.png_bytes(3 + k, 2, (10 * k, 20, 30)))
    return d


def check(spec, env):
    docs = docs_dir(env)
    fmt = spec["format"]
    labels = {fmt or "default"}
    with judged("the plugin"):
        plugin = plugins.make("elsie", {} if fmt is None else {"render_format": fmt})
    for n, segs in enumerate(spec["pages"]):
        lay = layout(spec, n, segs)
        src = "\n".join(x[1] for x in lay if x[0] != "drawing") + "\n"
        fails = any(x[3] for x in lay if x[0] == "drawing")
        cwd = os.getcwd()
        try:
            with default_deck(env), judged("a page"):
                if fails:
                    labels.add("failing block")
                    try:
                        plugin.on_page_markdown(src, None, {"docs_dir": docs})
                    except NameError:
                        result = None
                    else:
                        require(False, "page %d has a block that uses an unknown name, which was not reported", n)
                else:
                    result = plugin.on_page_markdown(src, None, {"docs_dir": docs})
        finally:
            left = os.getcwd()
            os.chdir(cwd)
        require(left == cwd, "the working directory is %r after page %d", left, n)
        if result is None:
            continue
        require(isinstance(result, str), "page %d became %r", n, result)
        lines = result.splitlines()
        pos = 0
        for i, x in enumerate(lay):
            if x[0] != "drawing":
                want = x[-1]
                if pos >= len(lines) and not any(y[-1] for y in lay[i:]):
                    # empty lines at the end
                    break
                require(pos < len(lines), "page %d ends before its line %r", n, want)
                require(lines[pos] == want, "page %d: line %r instead of %r (after %r)", n, lines[pos][:200], want, lines[max(0, pos - 1)][:100])
                pos += 1
                continue
            end = next((k for k in range(pos, len(lines)) if lines[k] == lay[i + 1][-1]), None)
            require(end is not None, "page %d: the line %r is missing", n, lay[i + 1][-1])
            where = "page %d, block %r" % (n, x[2][:3])
            with judged("the code of a block alone"):
                want = reference(env, docs, x[1], x[2], x[4])
            got = view(env, "\n".join(lines[pos:end]), fmt or "svg", where)
            require(len(got) == len(want), "%s: %d fragments instead of %d", where, len(got), len(want))
            for step, (g, w) in enumerate(zip(got, want)):
                if (fmt or "svg") == "svg":
                    w = decks.canonical(sut.parse_svg(w))
                    require(g == w, "%s, fragment %d: another drawing: %s instead of %s", where, step + 1, str(g)[:300], str(w)[:300])
                else:
                    require(g == hashlib.sha1(w.encode()).hexdigest(), "%s, fragment %d: the picture of another drawing", where, step + 1)
            if len(want) > 1:
                labels |= {"fragments", "nontrivial"}
            pos = end
        require(not [x for x in lines[pos:] if x], "page %d: more lines at its end: %r", n, lines[pos:pos + 3])
        for v in segs:
            if v["t"] == "elsie":
                labels |= {"skip " + str(v["skip"])} | {"%s" % k for k, _ in v["args"]}
                if v["skip"] or any(s["what"] == "lib" for s in v["body"]):
                    labels.add("nontrivial")
            elif v["t"] == "lib":
                labels.add("library")
    return sorted(labels)


PAGES = ["userguide/basics.md", "userguide/images.md", "userguide/layout.md", "userguide/lists.md", "userguide/markdown.md", "userguide/revealing.md", "userguide/shapes.md", "userguide/syntax_highlighting.md", "userguide/text.md",
         "getting_started.md", "cookbook/codestepping.md", "cookbook/grids.md", "cookbook/headers.md", "cookbook/zoom.md"]


@st.composite
def docs_strategy(draw, tier):
    return {"pages": draw(st.lists(st.tuples(st.integers(0, len(PAGES) - 1), st.lists(st.sampled_from(PROSE), max_size=3)).map(list), min_size=1, max_size=2)), "format": draw(st.sampled_from(["svg", "png"]))}


def docs(spec, env):
    """The pages of the documentation."""
    root = os.path.join(boot.REPO, "docs")
    labels = set()
    with judged("the plugin"):
        plugin = plugins.make("elsie", {"render_format": spec["format"]})
    for k, prose in spec["pages"]:
        path = os.path.join(root, PAGES[k])
        if not os.path.isfile(path):
            continue
        with open(path, encoding="utf-8") as f:
            src = f.read()
        src = "\n".join(prose + [src])
        work = env.fresh_dir("docs")
        os.symlink(os.path.join(root, "imgs"), os.path.join(work, "imgs"))
        cwd = os.getcwd()
        try:
            with default_deck(env), judged("the page %s of the documentation" % PAGES[k]):
                result = plugin.on_page_markdown(src, None, {"docs_dir": work})
        finally:
            os.chdir(cwd)
            env.drop(work)
        require(isinstance(result, str), "page %s became %r", PAGES[k], result)
        lines = result.splitlines()
        pos = 0
        blocks = 0
        for want in src.splitlines():
            m = re.match(r"\s*(```|~~~)elsie", want)
            if m:
                want = want[:m.end() - 5] + "python"
                blocks += "type=lib" not in m.string
            while pos < len(lines) and lines[pos] != want:
                pos += 1
            require(pos < len(lines), "page %s: the line %r is missing", PAGES[k], want)
            pos += 1
        tops = re.findall(r"class=[\"']elsie-wrapper\b", result)
        require(len(tops) == blocks, "page %s has %d drawings for %d blocks", PAGES[k], len(tops), blocks)
        labels.add(os.path.basename(PAGES[k]))
        if blocks:
            labels.add("nontrivial")
    return sorted(labels)


SUITES = {
    "docs": {"strategy": docs_strategy, "check": docs, "share": 0.15},
    "pages": {"strategy": strategy, "check": check, "share": 0.85},
}
CASES = {"quick": 2400, "thorough": 30000}
