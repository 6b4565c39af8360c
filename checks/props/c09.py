"""C09: inline markup."""
from hypothesis import strategies as st

from vlib import sut, texts
from vlib.core import expect_reject, judged, require

ID = "C09"
RULE = ("markup trees (nesting up to 4, empty and multi-line sections, '#' sections, literal escape characters and delimiters), 1-4 styles with any attributes and priorities, "
        "any base style, 10 delimiter triples; the tree is printed, drawn, read back from the SVG and compared character by character with its effective style; "
        "suite reject: unknown styles and unclosed sections; non-trivial: two nested sections, or a section over a line break")
ASSUMPTIONS = ["style names contain no delimiter and do not start with '#'", "trailing line breaks are not judged here"]
DELIMS = ["~{}", "~{}", "~{}", "@[]", "!()", "$<>", "/:;", "^ab", "%{}", "€«»"]
ALPHA = "abcX1 <&\"'.-é\U0001f600"


VARIANTS = ["normal", "ordinal", "slashed-zero", "lining-nums", "oldstyle-nums", "proportional-nums", "tabular-nums", "diagonal-fractions", "stacked-fractions"]


@st.composite
def attrs(draw):
    d = draw(texts.inline_attrs())
    if draw(st.integers(0, 3)) == 0:
        d["variant_numeric"] = draw(st.sampled_from(VARIANTS))
    return d


@st.composite
def case(draw, tier):
    delims = draw(st.sampled_from(DELIMS))
    names = draw(st.lists(st.sampled_from(["s1", "s2", "note-1", "my style", "é", "x.y"]), min_size=1, max_size=4, unique=True))
    names = [n for n in names if not set(n) & set(delims)] or ["S"]
    if set("S") & set(delims):
        names = ["T"]
    alphabet = "".join(c for c in ALPHA if c not in delims)
    return {
        "delims": delims,
        "styles": {n: draw(attrs()) for n in names},
        "base": draw(attrs()),
        "nodes": draw(texts.markup(names, delims, depth=4 if tier == "quick" else 6, alphabet=alphabet)),
        "scope": draw(st.sampled_from(["deck", "slide", "box"])),
        "single": draw(st.booleans()),
    }


def build(spec, env, text):
    import elsie

    deck = sut.make_deck(env)
    if spec["scope"] == "deck":
        for n, a in spec["styles"].items():
            deck.set_style(n, elsie.TextStyle(**a))
    slide = deck.new_slide()
    box = slide
    if spec["scope"] == "slide":
        for n, a in spec["styles"].items():
            slide.set_style(n, elsie.TextStyle(**a))
        box = slide.box(width=300)
    elif spec["scope"] == "box":
        box = slide.box(width=300)
        for n, a in spec["styles"].items():
            box.set_style(n, elsie.TextStyle(**a))
    esc = spec["delims"]
    if spec["single"] and esc[1:] == "{}":
        esc = esc[0]
    kw = {} if esc == "~" else {"escape_char": esc}
    box.text(text, elsie.TextStyle(**spec["base"]), **kw)
    return deck


def check(spec, env):
    text = texts.printed(spec["nodes"], spec["delims"])
    base = dict(texts.DEFAULT)
    base.update(spec["base"])
    with judged("drawing %r" % text):
        (root,) = sut.svgs(build(spec, env, text))
        found = texts.text_elements(root)
        require(len(found) == 1, "%d texts drawn", len(found))
        got = texts.flatten(found[0], base["size"] * 1.2)
    texts.compare(got, texts.expected_lines(spec["nodes"], base, spec["styles"]))
    labels = set()
    # the base style's variant of digits reaches only the first line (known finding, judged with "strict")
    base["variant_numeric"] = base.get("variant_numeric", "lining-nums")
    inline = texts.expected_lines(spec["nodes"], dict(base, variant_numeric=None), spec["styles"], ("variant_numeric",))
    for i, (g, w) in enumerate(zip(got, inline)):
        for (c, a), (_, b) in zip(g, w):
            v = b["variant_numeric"]
            if v is None and i and not spec.get("strict"):
                continue
            v = v or base["variant_numeric"]
            require(a.get("variant_numeric") == v, "variant of %r in line %d is %r, expected %r", c, i, a.get("variant_numeric"), v)
            if b["variant_numeric"]:
                labels.add("variants of digits")

    def walk(ns, depth, breaks):
        for n in ns:
            if isinstance(n, list):
                labels.add("depth %d" % (depth + 1))
                if depth >= 1:
                    labels.add("nontrivial")
                walk(n[1], depth + 1, breaks)
            elif "\n" in n and depth:
                labels.update(("line break in a section", "nontrivial"))

    walk(spec["nodes"], 0, None)
    if any("priority" in a for a in spec["styles"].values()):
        labels.add("priorities")
    return sorted(labels)


@st.composite
def reject_case(draw, tier):
    spec = draw(case(tier))
    spec["how"] = draw(st.sampled_from(["unknown", "unclosed", "no begin"]))
    spec["at"] = draw(st.integers(0, 10))
    # only '#' at the beginning makes a name that needs no style
    spec["name"] = draw(st.sampled_from(["QQ", "Q", "QQ#1", "Q#", "Q##w"] + ["%s#1" % n for n in sorted(spec["styles"])]))
    if set(spec["name"]) & set(spec["delims"]):
        spec["name"] = "QQ"
    return spec


def check_reject(spec, env):
    esc, beg, end = spec["delims"]
    nodes = list(spec["nodes"])
    at = spec["at"] % (len(nodes) + 1)
    if spec["how"] == "unknown":
        nodes.insert(at, [spec["name"], ["t"]])
        text = texts.printed(nodes, spec["delims"])
    else:
        # the opened section has to stay open: no end delimiter that is not paired
        flat = [n for n in nodes if isinstance(n, list)]
        name = next(iter(spec["styles"]))
        opened = esc + name + (beg if spec["how"] == "unclosed" else "")
        text = texts.printed(flat[:at], spec["delims"]) + opened
        if spec["how"] == "unclosed":
            text += "zz" + texts.printed(flat[at:], spec["delims"])
    expect_reject("text %r (%s)" % (text, spec["how"]), lambda: sut.svgs(build(spec, env, text)))
    return ["nontrivial", spec["how"]]


SUITES = {"drawn": {"strategy": case, "check": check, "share": 0.85}, "reject": {"strategy": reject_case, "check": check_reject, "share": 0.15}}
CASES = {"quick": 11250, "thorough": 100000}
