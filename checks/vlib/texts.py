"""Drawn text read back from SVG, and markup trees."""
import re

from hypothesis import strategies as st

from . import sut
from .core import require

NBSP = "\xa0"


def plain(s):
    return s.replace(NBSP, " ")


PRESERVED = "\x00"  # stands for a space that is kept


def preserved(e, inherited=False):
    """Are spaces kept in the content of the element?"""
    ws = re.search(r"(?:^|;)\s*white-space\s*:\s*([a-z-]+)", e.get("style") or "")
    ws = ws.group(1) if ws else e.get("white-space")
    if ws is not None:
        return ws.startswith(("pre", "break-spaces"))
    x = e.get("{http://www.w3.org/XML/1998/namespace}space")
    return inherited if x is None else x == "preserve"


def collapsed(chars):
    """What is shown of the characters of a text [(character, is kept, anything)]: unless they are kept,
    spaces are dropped at its ends and after another space."""
    out = []
    for c, keep, x in chars:
        if c in " \t\n\r" and not keep:
            if c in "\n\r" or not out or out[-1][0] == " ":
                continue
            out.append((" ", x))
        else:
            out.append((PRESERVED if c in (" ", "\t", NBSP) else c, x))
    while out and out[-1][0] == " ":
        out.pop()
    return [(" " if c == PRESERVED else c, x) for c, x in out]


def shown(e):
    """The characters that are shown of a text."""
    chars = []

    def walk(n, inherited):
        keep = preserved(n, inherited)
        chars.extend((c, keep, None) for c in n.text or "")
        for k in n:
            walk(k, keep)
            chars.extend((c, keep, None) for c in k.tail or "")

    walk(e, False)
    return "".join(c for c, _ in collapsed(chars))


def effective(e, inherited):
    out = dict(inherited)
    if e.get("font-family") is not None:
        out["font"] = e.get("font-family")
    if e.get("font-size") is not None:
        out["size"] = float(e.get("font-size"))
    s = sut.style_of(e)
    if e.get("font-variant-numeric") or "font-variant-numeric" in s:
        out["variant_numeric"] = s.get("font-variant-numeric") or e.get("font-variant-numeric")
    if "fill" in s:
        out["color"] = s["fill"]
    if "fill-opacity" in s:
        out["opacity"] = float(s["fill-opacity"])
    if "font-weight" in s:
        out["bold"] = s["font-weight"] == "bold"
    if "font-style" in s:
        out["italic"] = s["font-style"] == "italic"
    for k in ("font-family", "font-size"):
        if k in s:
            out["font" if k == "font-family" else "size"] = s[k] if k == "font-family" else float(s[k].rstrip("px"))
    return out


def flatten(text, line_size):
    """Lines of (character, effective style) of a <text> element."""
    require(sut.local(text) == "text", "<%s> is not a text", sut.local(text))
    chars = []
    line = [0]
    x0 = text.get("x")

    def add(s, style, keep):
        for c in s or "":
            require(c not in "\n\r", "line break in drawn text")
            chars.append((c, keep, (line[0], style)))

    def walk(e, inherited, keep):
        require(sut.local(e) in ("text", "tspan"), "<%s> in a text", sut.local(e))
        if e is not text and e.get("dy") is not None:
            n = float(e.get("dy")) / line_size
            require(abs(n - round(n)) < 1e-6 and round(n) >= 1, "line distance %s is not a multiple of %s", e.get("dy"), line_size)
            require(e.get("x") == x0, "line starts at x=%s, the text at x=%s", e.get("x"), x0)
            line[0] += int(round(n))
        st_ = effective(e, inherited)
        keep = preserved(e, keep)
        add(e.text, st_, keep)
        for c in e:
            walk(c, st_, keep)
            add(c.tail, st_, keep)

    walk(text, {}, False)
    lines = [[] for _ in range(line[0] + 1)]
    for c, (i, style) in collapsed(chars):
        lines[i].append((c, style))
    return lines


def drop_trailing(lines):
    lines = list(lines)
    while len(lines) > 1 and not lines[-1]:
        lines.pop()
    return lines


# ---------------------------------------------------------------- styles

ATTRS = ("font", "size", "color", "bold", "italic", "opacity")


@st.composite
def inline_attrs(draw, priorities=True):
    d = {}
    if draw(st.booleans()):
        d["color"] = draw(st.sampled_from(["red", "#00ff00", "#12a", "rgb(1,2,3)", "blue"]))
    if draw(st.booleans()):
        d["size"] = draw(st.sampled_from([10, 12.5, 30, 44]))
    for k in ("bold", "italic"):
        v = draw(st.sampled_from([None, None, True, False]))
        if v is not None:
            d[k] = v
    if draw(st.integers(0, 3)) == 0:
        d["font"] = draw(st.sampled_from(["serif", "Fira Code", "DejaVu Sans"]))
    if draw(st.integers(0, 5)) == 0:
        d["opacity"] = draw(st.sampled_from([0.5, 0.25, 1, 0]))
    if priorities and draw(st.booleans()):
        d["priority"] = draw(st.integers(-2, 3))
    return d


@st.composite
def markup(draw, names, delims, depth=3, alphabet="ab cX1<&\"'.-"):
    """Nodes: strings and [name, nodes]."""
    esc, beg, end = delims
    pool = list(names) + [n for n in ("#", "#tag", "#q 1") if not set(n) & set(delims)]

    def nodes(level):
        out = []
        for _ in range(draw(st.integers(0 if level else 1, 4))):
            if level < depth and draw(st.integers(0, 99)) < 55:
                name = draw(st.sampled_from(pool))
                out.append([name, nodes(level + 1)])
            else:
                chars = alphabet + esc + beg + ("\n" * 2) + (end if level == 0 else "")
                out.append(draw(st.text(alphabet=chars, max_size=6)))
        return out

    return nodes(0)


def printed(nodes, delims):
    esc, beg, end = delims
    out = []
    for n in nodes:
        if isinstance(n, str):
            out.append(n.replace(esc, esc + esc))
        else:
            out.append(esc + n[0] + beg + printed(n[1], delims) + end)
    return "".join(out)


def expected_lines(nodes, base, styles, attrs=ATTRS):
    """Lines of (character, effective style); base and styles are dicts of attributes."""
    lines = [[]]

    def walk(ns, style, prio):
        for n in ns:
            if isinstance(n, str):
                for c in plain(n):
                    if c == "\n":
                        lines.append([])
                    else:
                        lines[-1].append((c, style))
                continue
            name, inner = n
            if name.startswith("#"):
                walk(inner, style, prio)
                continue
            s = styles[name]
            if prio > s.get("priority", 0):
                walk(inner, style, prio)
            else:
                new = dict(style)
                new.update({k: v for k, v in s.items() if k in attrs})
                walk(inner, new, s.get("priority", 0))

    walk(nodes, {k: v for k, v in base.items() if k in attrs}, base.get("priority", 0))
    return lines


DEFAULT = {"font": "sans-serif", "size": 28, "color": "black"}


def same_style(got, want):
    """Unset weight and slant are normal, an unset opacity is opaque."""
    for k in ATTRS:
        a, b = got.get(k), want.get(k)
        if k in ("bold", "italic"):
            a, b = bool(a), bool(b)
        elif k == "opacity":
            a, b = (1.0 if a is None else a), (1.0 if b is None else b)
        if a != b:
            return k
    return None


def compare(got, want):
    got, want = drop_trailing(got), drop_trailing(want)
    gs = ["".join(c for c, _ in ln) for ln in got]
    ws = ["".join(c for c, _ in ln) for ln in want]
    require(gs == ws, "drawn text is %r, expected %r", gs, ws)
    for i, (g, w) in enumerate(zip(got, want)):
        for j, ((c, a), (_, b)) in enumerate(zip(g, w)):
            k = same_style(a, b)
            require(k is None, "%s of character %d (%r) of line %d is %r, expected %r", k, j, c, i, a.get(k) if k else None, b.get(k) if k else None)


def text_elements(root):
    return [e for e in root if sut.local(e) == "text"]



def char_width(style):
    """Width of any character in the simulated Inkscape."""
    size = style["size"]
    return size * (0.6 if style.get("bold") else 0.5) + (size * 0.05 if style.get("italic") else 0)


def line_width(line):
    return sum(char_width(s) for _, s in line)
