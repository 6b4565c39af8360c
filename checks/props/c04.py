"""C04: sizes, positions and fragment selectors."""
from hypothesis import strategies as st

from vlib import sut
from vlib.core import Skip, expect_reject, judged, require, require_close

ID = "C04"
RULE = ("2-7 values per case, each for one of width, height, x, y, show: members of the grammar, members with 1-3 random edits, and arbitrary strings and objects; "
        "an independent recogniser says whether a value is valid and what it means (area of the box, fragments in which it is drawn, number of fragments); "
        "non-trivial: the case has a valid and an invalid value or a selector of two parts")
ASSUMPTIONS = ["digits are ASCII digits; a line break at the end, fragment 0, booleans, empty sizes and negative sizes are not judged"]
CASES = {"quick": 15000, "thorough": 150000}

DIGITS = "0123456789"


# ---------------------------------------------------------------- independent recogniser

def number(s):
    """Value of a digit string or None."""
    if s and all(c in DIGITS for c in s):
        v = 0
        for c in s:
            v = v * 10 + DIGITS.index(c)
        return v
    return None


INVALID = "invalid"


def size_meaning(v):
    if isinstance(v, (int, float)):
        return ("min", v)
    if not isinstance(v, str):
        return INVALID
    if v == "fill":
        return ("fill", 1)
    if v[:5] == "fill(" and v[-1:] == ")" and number(v[5:-1]) is not None:
        return ("fill", number(v[5:-1]))
    if v[-1:] == "%" and number(v[:-1]) is not None:
        return ("share", number(v[:-1]))
    if number(v) is not None:
        return ("min", number(v))
    return INVALID


def pos_meaning(v):
    if isinstance(v, (int, float)):
        return ("fix", v)
    if not isinstance(v, str):
        return INVALID
    if v[:1] == "[" and v[-2:] == "%]" and number(v[1:-2]) is not None:
        return ("align", number(v[1:-2]))
    if v[-1:] == "%" and number(v[:-1]) is not None:
        return ("share", number(v[:-1]))
    if number(v) is not None:
        return ("fix", number(v))
    return INVALID


def show_meaning(v, current):
    """(set of fragments, start of the open range or None)"""
    if isinstance(v, int):
        return ({v}, None)
    if not isinstance(v, str):
        return INVALID
    fragments = set()
    open_from = None
    for part in v.split(","):
        part = part.strip(" \t")
        plus = part.endswith("+")
        if plus:
            first, last = part[:-1], None
        elif "-" in part:
            first, _, last = part.partition("-")
        else:
            first, last = part, part
        start = {"next": current + 1, "last": current}.get(first, number(first))
        if start is None:
            return INVALID
        if plus:
            if open_from is not None:
                return INVALID
            open_from = start
            continue
        end = start if "-" not in part else number(last)
        if end is None or end < start:
            return INVALID
        if end > 60:
            return ({end}, None)  # out of the judged domain, see in_domain
        fragments |= set(range(start, end + 1))
    return (fragments, open_from)


# ---------------------------------------------------------------- generator

def member(field):
    n = st.one_of(st.integers(0, 12), st.integers(0, 300))
    if field in ("width", "height"):
        return st.one_of(n.map(str), n.map(lambda v: "%d%%" % v), st.just("fill"), st.integers(1, 40).map(lambda v: "fill(%d)" % v),
                         st.integers(0, 400), st.floats(0, 400))
    if field in ("x", "y"):
        return st.one_of(n.map(str), n.map(lambda v: "%d%%" % v), n.map(lambda v: "[%d%%]" % v), st.integers(-300, 400), st.floats(-300, 400))
    i = st.integers(1, 12)
    first = st.one_of(i.map(str), i.map(str), st.sampled_from(["last", "next"]))
    part = st.one_of(
        first, first.map(lambda f: f + "+"), st.tuples(i, st.integers(0, 5)).map(lambda t: "%d-%d" % (t[0], t[0] + t[1])),
        st.tuples(st.sampled_from(["last", "next"]), st.integers(1, 25)).map(lambda t: "%s-%d" % t))
    sep = st.sampled_from([",", ", ", " ,", " , "])
    return st.one_of(i, part, st.lists(part, min_size=1, max_size=4).flatmap(lambda ps: sep.map(lambda s: s.join(ps))))


ALPHABET = "0123456789+-%[]()fil,lastnex. eF_xX/*^~'\"\t"


@st.composite
def edited(draw, field):
    s = draw(member(field))
    if not isinstance(s, str):
        return s
    s = list(s)
    for _ in range(draw(st.integers(1, 3))):
        what = draw(st.integers(0, 3))
        at = draw(st.integers(0, len(s)))
        c = draw(st.sampled_from(ALPHABET))
        if what == 0:
            s.insert(at, c)
        elif what == 1 and at < len(s):
            s[at] = c
        elif what == 2 and at < len(s):
            del s[at]
        elif at < len(s):
            s.insert(at, s[at])
    return "".join(s)


OTHER = st.one_of(
    st.text(max_size=8), st.text(alphabet=ALPHABET, max_size=10),
    st.sampled_from(["", " ", "100", "auto", "FILL", "Fill(2)", "fill()", "fill(a)", "fill(-1)", "fill (2)", "10 %", "%", "[%]", "[10]", "[10%", "10%]", "[[10%]]",
                     "-10", "+5", "10px", "1.5", "1e3", "0x10", "1_000", "10%%", "min", "all", "1-", "-3", "+", "1++", "1-2-3", "1-2+", "3-1", "1,,2", ",1", "1,",
                     "1+,2+", "1;2", "1 2", "next-last", "2-next", "last-next", "Next", "LAST+", "first", "prev", "1..3", "*", "next+1", "last-1", "nextlast"]),
    st.sampled_from([{"obj": "list"}, {"obj": "tuple"}, {"obj": "dict"}, {"obj": "bytes"}, {"obj": "object"}, {"obj": "complex"}, {"obj": "set"}, {"obj": "type"}]),
    st.floats(0, 30).map(lambda v: {"float": v}),
)


@st.composite
def probe(draw):
    field = draw(st.sampled_from(["width", "height", "x", "y", "show", "show"]))
    return [field, draw(st.one_of(member(field), edited(field), edited(field), OTHER))]


def strategy(tier):
    return st.fixed_dictionaries({"probes": st.lists(probe(), min_size=2, max_size=7), "horizontal": st.booleans(), "before": st.integers(1, 6)})


def real(v):
    if isinstance(v, dict):
        if "float" in v:
            return v["float"]
        return {"list": [10], "tuple": (10, 20), "dict": {"a": 1}, "bytes": b"10", "object": object(), "complex": 1j, "set": {3}, "type": int}[v["obj"]]
    return v


def in_domain(field, v):
    if isinstance(v, bool):
        return False
    if isinstance(v, str):
        if v != v.rstrip("\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029") or any(c.isdigit() and c not in DIGITS for c in v):
            return False
        if field == "show" and v != v.strip(" \t") and v.strip() != v.strip(" \t"):
            return False
        if field == "show" and any(c.isspace() and c not in " \t" for c in v):
            return False
        if field in ("width", "height") and v == "":
            return False
    return True


def check(spec, env):
    labels = set()
    horizontal = spec["horizontal"]
    W, H = 400, 300
    marks = []
    with judged("a slide"):
        deck = sut.make_deck(env, width=W, height=H)
        slide = deck.new_slide()
        slide.box(x=0, y=0, width=1, height=1, show=spec["before"])
    current = spec["before"]
    top = current
    kinds = set()
    for i, (field, raw) in enumerate(spec["probes"]):
        v = real(raw)
        if not in_domain(field, v):
            labels.add("not judged")
            continue
        if field == "show":
            m = show_meaning(v, current)
            if m != INVALID:
                named = m[0] | ({m[1]} if m[1] is not None else set())
                if min(named) < 1 or max(named) > 40:
                    labels.add("not judged")
                    continue
        else:
            m = (size_meaning if field in ("width", "height") else pos_meaning)(v)
            if m != INVALID and field in ("width", "height") and (m[1] < 0 or (m[0] == "fill" and m[1] == 0)):
                labels.add("not judged")
                continue
        kinds.add((field, "invalid" if m == INVALID else m[0] if field != "show" else "valid"))
        if m == INVALID:
            labels.add("invalid " + ("selector" if field == "show" else "size" if field in ("width", "height") else "position"))
            expect_reject("%s=%r" % (field, v), lambda: slide.box(**{field: v}))
            continue
        what = "%s=%r" % (field, v)
        with judged(what):
            if field == "show":
                slide.box(x=0, y=0, width=1, height=1, show=v).rect(bg_color=sut.colour(10 * i))
                named = m[0] | ({m[1]} if m[1] is not None else set())
                current = max([current] + list(named))
                top = current
                require(slide.current_fragment() == current, "%s: the current fragment is %r, expected %r", what, slide.current_fragment(), current)
                marks.append(("show", i, what, m))
                labels.add("selector of %d parts" % min(3, str(v).count(",") + 1))
            elif field in ("width", "height"):
                p = slide.box(x=10, y=20, width=200, height=100, horizontal=(field == "width"))
                p.box(width=20, height=20)
                p.box(**{field: v}).rect(bg_color=sut.colour(10 * i))
                p.box(width="fill", height="fill").rect(bg_color=sut.colour(10 * i + 1))
                marks.append(("size", i, what, (field, m)))
                labels.add("size " + m[0])
            else:
                p = slide.box(x=10, y=20, width=200, height=100, horizontal=horizontal)
                p.box(width=40, height=30, **{field: v}).rect(bg_color=sut.colour(10 * i))
                marks.append(("pos", i, what, (field, m)))
                labels.add("position " + m[0])
    with judged("rendering"):
        roots = sut.svgs(deck)
        rects = [sut.colour_rects(r) for r in roots]
    require(len(roots) == top, "%d fragments, expected %d", len(roots), top)
    for kind, i, what, m in marks:
        c = sut.colour(10 * i)
        if kind == "show":
            for f in range(1, top + 1):
                want = f in m[0] or (m[1] is not None and f >= m[1])
                got = c in rects[f - 1]
                require(want == got, "%s: %s in fragment %d", what, "drawn" if got else "not drawn", f)
            continue
        field, (how, n) = m
        got = rects[0].get(c)
        require(got is not None, "%s: box not drawn", what)
        x, y, w, h = got[0]
        if kind == "size":
            total = 200 if field == "width" else 100
            length = w if field == "width" else h
            rest = total - 20
            if how == "min":
                want = n
            elif how == "share":
                want = total * n / 100
            else:
                want = rest * n / (n + 1)
            require_close(length, want, what)
        else:
            start, total, own = (10, 200, 40) if field == "x" else (20, 100, 30)
            want = start + {"fix": n, "share": total * n / 100, "align": (total - own) * n / 100}[how]
            require_close(x if field == "x" else y, want, what)
    if {k[1] for k in kinds} >= {"invalid"} and len(kinds) > 1 or "selector of 2 parts" in labels or "selector of 3 parts" in labels:
        labels.add("nontrivial")
    return sorted(labels)
