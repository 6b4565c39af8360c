"""C13: highlighted code."""
from hypothesis import strategies as st

from vlib import sut, texts
from vlib.core import judged, require

ID = "C13"
RULE = ("sources put together from snippets of 12 languages and random text (tabs, blank lines, comments, strings, unicode) under three themes and any code style, with and without line numbers, "
        "language and nested inline sections that cross token and line boundaries; characters and effective styles are compared with pygments' own token stream and the section tree; "
        "non-trivial: at least two token kinds and two lines, or a section")
ASSUMPTIONS = ["the token stream of the installed pygments lexers is the specification of highlighting", "weight and slant are not judged inside sections that set a priority"]
CASES = {"quick": 3750, "thorough": 40000}

SNIPPETS = {
    "python": ["def f(a, b=1):", "    return a + b  # note", "\"\"\"doc", "string\"\"\"", "class A(B):", "\tpass", "x = 'é' + f\"{y!r}\"", "@dec", "", "for i in range(3): print(i)", "λ = 1"],
    "c": ["#include <stdio.h>", "int main(void) {", "\treturn 0; /* a", " b */", "}", "char *s = \"a\\n\";", "// x", ""],
    "cpp": ["template <class T> struct S { T x; };", "auto f = [](int a) { return a < 1 && a > 2; };", "", "std::vector<int> v;"],
    "rust": ["fn main() {", "    let x: u32 = 'a' as u32;", "    println!(\"{}\", x);", "}", "// c", ""],
    "javascript": ["const a = (x) => x * 2;", "/* c", "*/ let s = `t${a}`;", "", "if (a === b) { return null }"],
    "java": ["public class A {", "  private int x = 1;", "}", "@Override", ""],
    "json": ["{\"a\": [1, 2.5, null],", "\"b\": true}", ""],
    "html": ["<p class=\"a\">t &amp; u</p>", "<!-- c", "d -->", ""],
    "bash": ["for i in a b; do", "  echo \"$i\" | grep -v 'x'", "done", "# c", ""],
    "sql": ["SELECT * FROM t WHERE a = 'b' -- c", "", "AND x > 1;"],
    "yaml": ["a: 1", "b:", "  - x", "  - \"y\"", "# c", ""],
    "diff": ["--- a", "+++ b", "@@ -1 +1 @@", "-x", "+y", " z", ""],
    "text": ["any text", "", "  more\t!"],
}
THEMES = ["default", "monokai", "vim"]
SECTIONS = {
    "big": {"size": 33}, "serif": {"font": "serif"}, "faint": {"opacity": 0.5}, "ghost": {"opacity": 0}, "serif2": {"font": "other", "size": 9},
    "hot": {"color": "#fe0102", "priority": 1}, "cold": {"color": "#0201fe", "priority": 2, "size": 21},
}


@st.composite
def source(draw):
    lang = draw(st.sampled_from(sorted(SNIPPETS)))
    lines = draw(st.lists(st.one_of(st.sampled_from(SNIPPETS[lang]), st.sampled_from(SNIPPETS[lang]), st.text(alphabet="ab1 =(){}\"'#\t<&.é", max_size=10)), min_size=1, max_size=9))
    text = "\n".join(lines)
    if draw(st.integers(0, 14)) == 0:
        # a long source; the number of its lines has more digits
        if lang == "html":
            # the time of its lexer is exponential in the number of open comments
            text = text.replace("<!--", "-->")
        text = "\n".join([text] * draw(st.sampled_from([9, 11, 60, 120])))
    text = draw(st.sampled_from(["", "", "\n", "\n\n"])) + text + draw(st.sampled_from(["", "", "\n", "\n\n"]))
    return lang, text


@st.composite
def case(draw, tier, sections):
    lang, text = draw(source())
    spec = {"language": draw(st.sampled_from([lang, lang, lang, lang, ""])), "text": text, "tabsize": draw(st.sampled_from([None, 1, 2, 8])),
            "numbers": draw(st.booleans()), "theme": draw(st.sampled_from(THEMES)),
            "style": draw(st.one_of(st.none(), st.fixed_dictionaries({"size": st.sampled_from([9, 15]), "font": st.sampled_from(["m1", "m2"])})))}
    if sections:
        spec["delims"] = draw(st.sampled_from(["~{}", "~{}", "@[]", "^<>", "$‹›"]))
        n = len(text)
        cuts = []
        for _ in range(draw(st.integers(1, 4))):
            a = draw(st.integers(0, n))
            b = draw(st.integers(a, min(n, a + draw(st.sampled_from([0, 3, 8, 40])))))
            cuts.append([a, b, draw(st.sampled_from(sorted(SECTIONS) + ["#", "#x"]))])
        spec["cuts"] = cuts
    return spec


def marked(spec, text):
    """Insert the sections that nest properly; returns the text with commands and the sections of every character (outer first)."""
    esc, beg, end = spec["delims"]
    good = []
    for a, b, name in spec["cuts"]:
        if any(a < c < b < d or c < a < d < b for c, d, _ in good):
            continue
        good.append((a, b, name))
    # outer sections first at the same place
    good.sort(key=lambda t: (t[0], -t[1]))
    of = [[] for _ in text]
    out = []
    stack = []
    pending = list(good)
    for i in range(len(text) + 1):
        while stack and stack[-1][1] == i and stack[-1][0] < i:
            stack.pop()
            out.append(end)
        while pending and pending[0][0] == i:
            a, b, name = pending.pop(0)
            out.append(esc + name + beg)
            if a == b:
                out.append(end)
            else:
                stack.append((a, b, name))
        while stack and stack[-1][1] == i:
            stack.pop()
            out.append(end)
        if i < len(text):
            of[i] = [s[2] for s in stack]
            out.append(text[i].replace(esc, esc + esc))
    return "".join(out), of


def tokens_of(text, language):
    from pygments.lexers import get_lexer_by_name

    return list(get_lexer_by_name(language).get_tokens(text))


def strip_range(text):
    a = len(text) - len(text.lstrip("\n"))
    b = len(text.rstrip("\n"))
    return a, max(a, b)


def theme_style(theme, ttype):
    from pygments.styles import get_style_by_name

    cls = get_style_by_name(theme)
    known = {t for t, _ in cls}
    while ttype not in known:
        ttype = ttype.parent
    s = cls.style_for_token(ttype)
    d = {}
    if s["color"]:
        d["color"] = "#" + s["color"]
    if s["bold"]:
        d["bold"] = True
    if s["italic"]:
        d["italic"] = True
    return d


def expected(spec, text, of):
    """Lines of (character, style without sections, sections)."""
    base = {"font": "monospace", "size": 20, "color": "#222"}
    base.update(spec["style"] or {})
    a, b = strip_range(text)
    body = text[a:b]
    styles = [dict(base) for _ in body]
    kinds = set()
    if spec["language"]:
        pos = 0
        for ttype, value in tokens_of(body, spec["language"]):
            d = theme_style(spec["theme"], ttype)
            kinds.add(ttype)
            for c in value:
                if pos < len(body):
                    assert body[pos] == c
                    styles[pos].update(d)
                pos += 1
    lines = [[]]
    for i, c in enumerate(body):
        if c == "\n":
            lines.append([])
        else:
            lines[-1].append((c, styles[i], of[a + i] if of else []))
    return lines, kinds


def trim(lines):
    lines = list(lines)
    while lines and not lines[0]:
        lines.pop(0)
    while lines and not lines[-1]:
        lines.pop()
    return lines


def check(spec, env):
    delims = spec.get("delims")
    text = spec["text"]
    if delims:
        # delimiters of sections inside of the text would be commands
        text = "".join(c for c in text if c not in delims)
    tab = spec["tabsize"]
    source_text = text
    of = None
    if delims:
        cuts = dict(spec, cuts=[[min(a, len(text)), min(b, len(text)), n] for a, b, n in spec["cuts"]])
        source_text, of = marked(cuts, text)
        wide, wide_of = [], []
        for c, o in zip(text, of):
            for d in (" " * (tab or 4) if c == "\t" else c):
                wide.append(d)
                wide_of.append(o)
        text, of = "".join(wide), wide_of
    else:
        text = text.replace("\t", " " * (tab or 4))
    want, kinds = expected(spec, text, of)
    with judged("code(%r, %r)" % (spec["language"], source_text)):
        import elsie

        deck = sut.make_deck(env, pygments_theme=spec["theme"])
        for n, a in SECTIONS.items():
            deck.set_style(n, elsie.TextStyle(**a))
        kw = {}
        if tab is not None:
            kw["tabsize"] = tab
        if spec["numbers"]:
            kw["line_numbers"] = True
        if spec["style"] is not None:
            deck.set_style("mine", elsie.TextStyle(**spec["style"]), base="code")
            kw["style"] = "mine"
        if delims:
            kw["use_styles"] = True
            if delims != "~{}":
                kw["escape_char"] = delims
        deck.new_slide().code(spec["language"], source_text, **kw)
        (root,) = sut.svgs(deck)
        (e,) = texts.text_elements(root)
        got = texts.flatten(e, ((spec["style"] or {}).get("size") or 20) * 1.2)
        require(e.get("text-anchor") == "start", "code is not left-aligned")
    if spec["numbers"]:
        width = len(str(len(got)))
        rest = []
        for i, line in enumerate(got):
            prefix = str(i + 1).zfill(width) + " "
            s = "".join(c for c, _ in line)
            require(s.startswith(prefix), "line %d of %d starts with %r, expected %r", i + 1, len(got), s[:8], prefix)
            if not delims:
                require(all(a.get("color") == "gray" for _, a in line[:width]), "line number drawn in %r", line[0][1])
            rest.append(line[len(prefix):])
        got = rest
    lead = len(text) - len(text.lstrip("\n"))
    got, want = trim(got), trim(want)
    gs = ["".join(c for c, _ in ln) for ln in got]
    ws = ["".join(texts.plain(c) for c, _, _ in ln) for ln in want]
    require(gs == ws, "drawn code is %r, expected %r", gs, ws)
    for i, (g, w) in enumerate(zip(got, want)):
        for j, ((c, a), (_, b, secs)) in enumerate(zip(g, w)):
            b = dict(b)
            prio, overridden = 0, False
            for name in secs:
                s = SECTIONS.get(name)
                if s is None or s.get("priority", 0) < prio:
                    continue
                prio = s.get("priority", 0)
                overridden = overridden or prio > 0
                b.update({k: v for k, v in s.items() if k != "priority"})
            for k in texts.ATTRS:
                if overridden and k in ("bold", "italic"):
                    continue
                x, y = a.get(k), b.get(k)
                if k in ("bold", "italic"):
                    x, y = bool(x), bool(y)
                elif k == "opacity":
                    x, y = x or 1.0, y or 1.0
                require(x == y, "%s of character %d (%r) of line %d is %r, expected %r (sections %r)", k, j, c, i, x, y, secs)
    labels = {"language " + (spec["language"] or "none")}
    if of and any(of):
        labels.update(("nontrivial", "sections"))
        if any(len(o) > 1 for o in of):
            labels.add("nested sections")
    if len(kinds) >= 2 and len(want) >= 2:
        labels.add("nontrivial")
    if spec["numbers"]:
        labels.add("line numbers")
    return sorted(labels)


SUITES = {
    "plain": {"strategy": lambda tier: case(tier, False), "check": check, "share": 0.45},
    "sections": {"strategy": lambda tier: case(tier, True), "check": check, "share": 0.55},
}
