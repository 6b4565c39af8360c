"""C16: well-formed pages that carry the user's strings."""
import io
import zipfile

from hypothesis import strategies as st

from vlib import decks, sut, texts
from vlib.core import judged, require, require_close

ID = "C16"
RULE = ("slides whose texts, fonts, colours, dash patterns, box names (debug boxes), list labels, code, SVG content and ORA labels are strings of any legal XML characters, dense in quotes, ampersands, "
        "angle brackets, entity-like, non-BMP, combining, right-to-left and exotic line-break characters; each page (also grids) is read with two XML parsers; non-trivial: two strings with a special character")
ASSUMPTIONS = ["tabs, line feeds and carriage returns inside of XML attributes are not judged", "carriage returns in texts are not judged"]
CASES = {"quick": 6250, "thorough": 60000}

SPECIAL = list("<>&'\"") + ["&amp;", "&#60;", "]]>", "<!--", "-->", "<![CDATA[", "<?x?>", "</text>", "é", "ř", "\U0001f600", "\U0010fffd", "a\u0301", "\u05d0\u05d1", "\u200f", "\x7f", "\x85", "\u2028",
                            "\u2029", "\x0b"[:0], "\ufeff", "\ufffd", "\xa0", " ", "  ", "%", "\\", "/", ";", ":", "=", "{", "}", "#", "$"]
STRING = st.lists(st.one_of(st.sampled_from(SPECIAL), st.sampled_from(SPECIAL), st.text(alphabet="ab1", min_size=1, max_size=3),
                            st.characters(exclude_categories=("Cs", "Cc"), exclude_characters="\ufffe\uffff")), min_size=1, max_size=6).map("".join)


def legal(s):
    return "".join(c for c in s if not (ord(c) & 0xFFFE) == 0xFFFE)


STRING = STRING.map(legal).filter(bool)
WHATS = ["text", "text", "styled", "code", "rect", "ellipse", "polygon", "line", "path", "name", "label", "svg", "ora", "dash"]


@st.composite
def strategy_(draw, tier):
    items = draw(st.lists(st.tuples(st.sampled_from(WHATS), st.lists(STRING, min_size=3, max_size=3)).map(list), min_size=1, max_size=5 if tier == "quick" else 10))
    return {"items": items, "wh": draw(st.sampled_from([[640, 480], [33, 77], [1024, 768]])),
            "view_box": draw(st.one_of(st.none(), st.tuples(st.integers(-9, 9), st.floats(-9, 9, width=16).map(lambda v: round(v, 3)), st.integers(1, 99), st.integers(1, 99)).map(list))),
            "grid": draw(st.sampled_from([None, None, None, [2, 1], [1, 2]]))}


def strategy(tier):
    return strategy_(tier)


def quote(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;").replace("'", "&apos;")


def ora_file(env, name):
    path = None
    with io.BytesIO() as f:
        with zipfile.ZipFile(f, "w") as z:
            z.writestr(zipfile.ZipInfo("mimetype"), "image/openraster")
            z.writestr(zipfile.ZipInfo("data/a.png"), decks.png_bytes(3, 2, (5, 6, 7)))
            z.writestr(zipfile.ZipInfo("stack.xml"), ("<?xml version='1.0' encoding='UTF-8'?><image w='6' h='4'><stack><stack name=\"%s\" x='0' y='0' opacity='1.0' visibility='visible'>"
                       "<layer name=\"%s\" src='data/a.png' x='1' y='1' opacity='1.0' visibility='visible'/></stack></stack></image>" % (quote(name), quote(name))).encode())
        path = decks.asset(env, ".ora", f.getvalue())
    return path


def check(spec, env):
    expected = []  # (description, predicate on (elements, all texts))
    items = spec["items"]
    view = tuple(spec["view_box"]) if spec["view_box"] else None
    debug = any(w == "name" for w, _ in items)

    def has_text(s, t=None):
        want = texts.plain((t if t is not None else s).replace("\n", ""))
        expected.append(("text %r" % s, lambda els, txt: any(want in x for x in txt)))

    def has_attr(tag, name, s):
        expected.append(("%s of <%s> %r" % (name, tag, s), lambda els, txt: any(e.get(name) == s for e in els if sut.local(e) == tag)))

    def has_style(tag, name, s):
        part = "%s:%s" % (name, s)

        def has(els, txt):
            for e in els:
                v = e.get("style") or ""
                if sut.local(e) == tag and any((q + v + ";").find(";" + p + ";") >= 0 for q in (";", "; ") for p in (part, "%s: %s" % (name, s), " %s:%s" % (name, s), " %s: %s" % (name, s))):
                    return True
            return False

        expected.append(("%s of <%s> %r" % (name, tag, s), has))

    with judged("slide with strings %r" % (items,)):
        import elsie
        from elsie.ext import ordered_list

        deck = sut.make_deck(env, width=spec["wh"][0], height=spec["wh"][1])
        kw = {"view_box": view} if view else {}
        s = deck.new_slide(debug_boxes=debug, **kw)
        for what, (a, b, c) in items:
            if what == "text":
                # '~' would be a command, braces are literal without it
                t = (a + "\n" + b).replace("~", "").strip("\n") or "x"
                s.text(t)
                for part in t.split("\n"):
                    has_text(part)
            elif what == "styled":
                t = a.replace("~", "").replace("}", "").strip("\n") or "x"
                col = b if not b.startswith(" ") else "c" + b
                bx = s.box()
                bx.set_style("mine", elsie.TextStyle(font=c, color=col, size=11))
                bx.text("k ~mine{" + t + "}")
                has_text(t)
                has_attr("tspan", "font-family", c)
                has_style("tspan", "fill", col)
            elif what == "code":
                t = a.strip("\n") or "x"
                s.code("", t)
                has_text(t)
            elif what in ("rect", "ellipse"):
                getattr(s, what)(color=a, bg_color=b)
                has_style(what, "stroke", a)
                has_style(what, "fill", b)
            elif what == "polygon":
                s.polygon([(0, 0), (5, 5), (9, 0)], color=a, bg_color=b)
                has_style("polygon", "stroke", a)
                has_style("polygon", "fill", b)
            elif what == "line":
                s.line([(0, 0), (5, 5)], color=a, stroke_dasharray=b, end_arrow=elsie.Arrow(3))
                has_style("polyline", "stroke", a)
                has_style("polyline", "stroke-dasharray", b)
                has_style("polygon", "fill", a)
            elif what == "path":
                s.path([("M", (0, 0)), ("L", (5, 5))], color=a, bg_color=b, stroke_dasharray=c)
                has_style("path", "stroke", a)
                has_style("path", "fill", b)
                has_style("path", "stroke-dasharray", c)
            elif what == "dash":
                s.rect(color=a, stroke_dasharray=b, stroke_width=2)
                has_style("rect", "stroke-dasharray", b)
            elif what == "name":
                s.box(name=a, width=10, height=10)
                has_text(a)
            elif what == "label":
                t = a.replace("~", "").strip("\n") or "x"
                ordered_list(s).item(label=t).text("i")
                has_text(t)
            elif what == "svg":
                src = "<svg xmlns='http://www.w3.org/2000/svg' width='9' height='9'><desc title=\"%s\">%s</desc><g data='%s'/></svg>" % (quote(a), quote(b), quote(c))
                s.image(decks.asset(env, ".svg", src))
                has_attr("desc", "title", a)
                has_attr("g", "data", c)
                expected.append(("content %r" % b, lambda els, txt, b=b: any(sut.local(e) == "desc" and e.text == b for e in els)))
            elif what == "ora":
                if "**" in a:
                    continue
                s.image(ora_file(env, a))
                for tag in ("g", "image"):
                    expected.append(("ORA label %r" % a, lambda els, txt, tag=tag, a=a: any(sut.local(e) == tag and e.get(sut.INKNS + "label") == a for e in els)))
        grid = spec["grid"]
        (unit,) = sut.render_units(deck, **({"slides_per_page": tuple(grid)} if grid else {}))
        page = unit.get_svg()
        # the document is written as UTF-8
        data = page.encode("utf-8")
        import lxml.etree as et

        try:
            et.fromstring(data)
        except et.XMLSyntaxError as e:
            require(False, "not well-formed: %s", e)
        root = sut.parse_svg(page)
        gx, gy = grid or (1, 1)
        require_close(sut.fl(root, "width"), spec["wh"][0] * gx, "width of the page")
        require_close(sut.fl(root, "height"), spec["wh"][1] * gy, "height of the page")
        require(root.tag == sut.SVG + "svg", "root is <%s>", root.tag)
        if grid:
            (g,) = list(root)
            (inner,) = list(g)
        else:
            inner = root
        box = inner.get("viewBox")
        if view:
            require(box is not None and tuple(float(v) for v in box.replace(",", " ").split()) == tuple(map(float, view)), "viewBox is %r, expected %r", box, view)
        else:
            require(box is None, "viewBox is %r, expected none", box)
        els = list(root.iter())
        txt = [texts.shown(e) for e in els if sut.local(e) == "text"]
        for what, pred in expected:
            require(pred(els, txt), "%s is not in the page", what)
    labels = {w for w, _ in items}
    strange = sum(1 for _, ss in items for t in ss if set(t) & set("<>&'\"") or any(ord(ch) > 126 for ch in t))
    if strange >= 2:
        labels.add("nontrivial")
    if view:
        labels.add("view box")
    if grid:
        labels.add("grid")
    return sorted(labels)
