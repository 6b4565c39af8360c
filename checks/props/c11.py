"""C11: algebra of text styles."""
from hypothesis import strategies as st

from vlib.core import expect_reject, judged, require

ID = "C11"
RULE = ("triples of styles over all ten attributes: right operand wins where it is set, associativity, idempotence, neutral element, operands unchanged, copies independent; "
        "suite values: every attribute with values of all kinds in constructor and assignment, accepted or rejected by a table; "
        "non-trivial: the styles overlap in a set attribute and differ elsewhere / a rejected value")
ASSUMPTIONS = ["booleans given as numbers are not judged", "priority, which is always set, is taken from the right-hand style"]
CASES = {"quick": 30000, "thorough": 250000}

VARIANTS = ["normal", "ordinal", "slashed-zero", "lining-nums", "oldstyle-nums", "proportional-nums", "tabular-nums", "diagonal-fractions", "stacked-fractions"]
NUM = st.one_of(st.integers(-5, 100), st.floats(-5, 100), st.just(0))
VALUES = {
    "font": st.one_of(st.text(max_size=5), st.just("")),
    "size": NUM, "align": st.sampled_from(["left", "middle", "right"]), "line_spacing": NUM,
    "color": st.one_of(st.sampled_from(["red", "#123456", ""]), st.text(max_size=4)),
    "bold": st.booleans(), "italic": st.booleans(), "variant_numeric": st.sampled_from(VARIANTS), "opacity": NUM,
    "priority": st.one_of(st.integers(-5, 5), st.floats(-5, 5)),
}
ATTRS = tuple(VALUES)


def style():
    return st.fixed_dictionaries({}, optional=VALUES)


def strategy(tier):
    return st.fixed_dictionaries({"a": style(), "b": style(), "c": style(), "set": style()})


def read(s):
    return {k: getattr(s, k) for k in ATTRS}


def norm(d):
    out = {k: d.get(k) for k in ATTRS}
    out["priority"] = d.get("priority", 0)
    return out


def over(a, b):
    return {k: b[k] if b[k] is not None else a[k] for k in ATTRS}


def check(spec, env):
    with judged("style algebra"):
        import elsie

        T = elsie.TextStyle
        da, db, dc = (norm(spec[k]) for k in "abc")
        a, b, c = (T(**spec[k]) for k in "abc")
        for x, d in ((a, da), (b, db), (c, dc)):
            require(read(x) == d, "attributes read back as %r, given %r", read(x), d)
        ab = a.compose(b)
        require(read(ab) == over(da, db), "compose: %r with %r gives %r", da, db, read(ab))
        require(read(a) == da and read(b) == db, "compose changed its operands")
        left, right = ab.compose(c), a.compose(b.compose(c))
        require(read(left) == read(right), "composition is not associative: %r, %r", read(left), read(right))
        require(read(a.compose(a)) == da, "composition is not idempotent")
        require(read(T(priority=da["priority"]).compose(a)) == da and read(a.compose(T(priority=da["priority"]))) == da, "the empty style is not neutral")
        u = a.copy()
        require(u is not a and read(u) == da, "copy differs")
        u.update(b)
        require(read(u) == over(da, db) and read(a) == da and read(b) == db, "update: %r", read(u))
        r = a.compose(b)
        for k, v in spec["set"].items():
            setattr(r, k, v)
            require(getattr(r, k) == v, "%s reads back as %r, set to %r", k, getattr(r, k), v)
        want = over(da, db)
        want.update(spec["set"])
        require(read(r) == want, "assignment of %r gives %r", spec["set"], read(r))
        require(read(a) == da and read(b) == db, "assignment to a composed style changed an operand")
        for k in spec["set"]:
            if k != "priority":
                setattr(r, k, None)
                want[k] = None
        require(read(r) == want, "attributes cannot be unset: %r", read(r))
    both = set(spec["a"]) & set(spec["b"])
    labels = ["overlap" if both else "disjoint"]
    if both and set(spec["a"]) ^ set(spec["b"]):
        labels.append("nontrivial")
    return labels


KINDS = ["none", "str", "emptystr", "int", "float", "bool", "list", "dict", "bytes", "object", "choice", "variant", "upper", "tuple"]


def value(kind, text, num):
    return {"none": None, "str": text + "q", "emptystr": "", "int": int(num), "float": float(num) + 0.5, "bool": num % 2 == 0, "list": [num], "dict": {"a": num}, "bytes": b"red",
            "object": object(), "choice": ["left", "middle", "right"][int(num) % 3], "variant": VARIANTS[int(num) % len(VARIANTS)],
            "upper": ["Left", "MIDDLE", "right ", "center", "Ordinal", "lining nums"][int(num) % 6], "tuple": ("left",)}[kind]


def valid(attr, kind, v):
    """True / False / None: not judged"""
    if attr == "priority" and v is None:
        return False
    if v is None:
        return True
    if attr in ("font", "color"):
        return isinstance(v, str)
    if attr in ("size", "line_spacing", "opacity", "priority"):
        if isinstance(v, bool):
            return None
        return isinstance(v, (int, float))
    if attr in ("bold", "italic"):
        return isinstance(v, bool)
    if attr == "align":
        return v in ("left", "middle", "right") if isinstance(v, str) else False
    return v in VARIANTS if isinstance(v, str) else False


def value_strategy(tier):
    one = st.tuples(st.sampled_from(ATTRS), st.sampled_from(KINDS), st.text(max_size=3), st.integers(0, 50)).map(list)
    return st.fixed_dictionaries({"values": st.lists(one, min_size=1, max_size=6), "start": style()})


def check_values(spec, env):
    import elsie

    labels = set()
    with judged("a style"):
        s = elsie.TextStyle(**spec["start"])
        model = norm(spec["start"])
    for attr, kind, text, num in spec["values"]:
        v = value(kind, text, num)
        ok = valid(attr, kind, v)
        if ok is None:
            continue
        if ok:
            with judged("%s=%r" % (attr, v)):
                require(getattr(elsie.TextStyle(**{attr: v}), attr) == v, "%s=%r does not read back", attr, v)
                setattr(s, attr, v)
            model[attr] = v
            labels.add("accepted " + attr)
        else:
            expect_reject("%s=%r" % (attr, v), lambda: elsie.TextStyle(**{attr: v}))
            expect_reject("assignment of %s=%r" % (attr, v), lambda: setattr(s, attr, v))
            labels.update(("rejected " + attr, "nontrivial"))
        require(read(s) == model, "after assigning %s=%r the style is %r, expected %r", attr, v, read(s), model)
    expect_reject("an unknown attribute", lambda: elsie.TextStyle(colour="red"))
    expect_reject("assignment of an unknown attribute", lambda: setattr(s, "colour", "red"))
    expect_reject("composition with something else", lambda: s.compose({"size": 1}))
    return sorted(labels)


SUITES = {"laws": {"strategy": strategy, "check": check, "share": 0.6}, "values": {"strategy": value_strategy, "check": check_values, "share": 0.4}}
