"""C10: scopes of named styles."""
from hypothesis import strategies as st

from vlib import sut, texts
from vlib.core import expect_reject, judged, require

ID = "C10"
RULE = ("sequences of 3-18 operations (set_style with and without base, update_style, get_style and changing the result, new slide, new box, text, code in any scope, unknown names) interpreted "
        "by elsie and by a model with copied dictionaries; after every operation all styles of all scopes are compared (with and without the defaults), at the end all drawn texts; "
        "non-trivial: a style is set or updated in a scope that has a child, parent or sibling scope, or a text drawn before the change")
ASSUMPTIONS = ["style objects passed to set_style and returned by set_style/update_style are not changed by the caller afterwards"]
CASES = {"quick": 6000, "thorough": 50000}

NAMES = ["default", "emph", "alert", "tt", "n1", "n2", "code"]
ATTRS = ("font", "size", "align", "line_spacing", "color", "bold", "italic", "variant_numeric", "opacity", "priority")


@st.composite
def attrs(draw):
    d = draw(texts.inline_attrs())
    if draw(st.integers(0, 3)) == 0:
        d["align"] = draw(st.sampled_from(["left", "middle", "right"]))
    if draw(st.integers(0, 3)) == 0:
        d["line_spacing"] = draw(st.sampled_from([1, 1.5, 2]))
    if draw(st.integers(0, 4)) == 0:
        d["variant_numeric"] = draw(st.sampled_from(["normal", "ordinal", "tabular-nums"]))
    return d


@st.composite
def op(draw):
    t = draw(st.sampled_from(["set", "set", "update", "update", "slide", "box", "box", "text", "text", "get", "reject"]))
    o = {"t": t, "at": draw(st.integers(0, 30)), "name": draw(st.sampled_from(NAMES))}
    if t in ("set", "update"):
        o["attrs"] = draw(attrs())
    if t == "set":
        # the same style object may be used several times
        o["shared"] = draw(st.sampled_from([None, None, 0, 1]))
        o["base"] = draw(st.sampled_from(["default", "default", "emph", "n1", "alert", "code"]))
        if o["name"] == "default":
            o["base"] = "default"
    if t == "get":
        o["attrs"] = draw(attrs())
        o["full"] = draw(st.booleans())
    if t == "box":
        o["via"] = draw(st.booleans())
    if t == "text":
        o["inline"] = draw(st.lists(st.sampled_from(NAMES[1:]), max_size=2))
        o["obj"] = draw(st.one_of(st.none(), st.none(), attrs()))
        o["code"] = draw(st.sampled_from([False, False, True]))
    if t == "reject":
        o["how"] = draw(st.sampled_from(["get", "update", "base", "text", "type"]))
    return o


def strategy(tier):
    return st.fixed_dictionaries({"shared": st.lists(attrs(), min_size=2, max_size=2), "ops": st.lists(op(), min_size=3, max_size=18 if tier == "quick" else 40)})


def norm(d):
    out = {k: d.get(k) for k in ATTRS}
    out["priority"] = d.get("priority", 0)
    return out


def over(base, new):
    out = dict(base)
    out.update({k: v for k, v in new.items() if v is not None})
    out["priority"] = new.get("priority", 0)
    return out


def read(style):
    return {k: getattr(style, k) for k in ATTRS}


def initial():
    return {
        "default": dict(font="sans-serif", color="black", size=28, line_spacing=1.2, align="middle", variant_numeric="lining-nums"),
        "tt": dict(font="monospace"),
        "emph": dict(italic=True),
        "alert": dict(bold=True, color="red"),
        "code": dict(font="monospace", align="left", color="#222", line_spacing=1.2, size=20),
    }


def check(spec, env):
    labels = set()
    drawn = []  # (slide number, expected base, styles, text tree)
    with judged("style operations"):
        import elsie

        deck = sut.make_deck(env)
        scopes = [deck]
        kinds = ["deck"]
        model = [initial()]
        slide_of = [None]
        parents = [None]
        slides = [deck.new_slide()]
        scopes.append(slides[0])
        kinds.append("slide")
        model.append(dict(model[0]))
        slide_of.append(0)
        parents.append(0)
        shared = [elsie.TextStyle(**a) for a in spec.get("shared", ())]
        for o in spec["ops"]:
            i = o["at"] % len(scopes)
            name = o["name"]
            if o["t"] == "slide":
                slides.append(deck.new_slide())
                scopes.append(slides[-1])
                kinds.append("slide")
                slide_of.append(len(slides) - 1)
                model.append(dict(model[0]))
                parents.append(0)
            elif o["t"] == "box" and kinds[i] != "deck":
                owner = scopes[i].rect() if o["via"] else scopes[i]
                scopes.append(owner.box())
                kinds.append("box")
                slide_of.append(slide_of[i])
                model.append(dict(model[i]))
                parents.append(i)
            elif o["t"] == "set":
                use = None
                if o.get("shared") is not None and name != "default":
                    use = shared[o["shared"]]
                    o = dict(o, attrs=spec["shared"][o["shared"]])
                    labels.add("shared object")
                if o["base"] != "default":
                    if o["base"] not in model[i]:
                        expect_reject("set_style with an unknown base", lambda: scopes[i].set_style(name, elsie.TextStyle(**o["attrs"]), base=o["base"]))
                        continue
                    new = over(model[i][o["base"]], o["attrs"])
                else:
                    new = dict(o["attrs"])
                if name == "default":
                    # the default style has to be complete
                    new = over(over(initial()["default"], {}), new)
                    scopes[i].set_style(name, elsie.TextStyle(**new))
                else:
                    scopes[i].set_style(name, use or elsie.TextStyle(**o["attrs"]), base=o["base"])
                model[i][name] = new
                if len(scopes) > 1 or drawn:
                    labels.add("nontrivial")
            elif o["t"] == "update":
                if name not in model[i]:
                    expect_reject("update_style of an unknown style", lambda: scopes[i].update_style(name, elsie.TextStyle(**o["attrs"])))
                    continue
                scopes[i].update_style(name, elsie.TextStyle(**o["attrs"]))
                model[i][name] = over(model[i][name], o["attrs"])
                if len(scopes) > 1 or drawn:
                    labels.add("nontrivial")
            elif o["t"] == "get" and name in model[i]:
                got = scopes[i].get_style(name, full_style=o["full"])
                for k, v in o["attrs"].items():
                    setattr(got, k, v)
            elif o["t"] == "text" and kinds[i] != "deck":
                nodes = ["x"]
                for n in o["inline"]:
                    if n in model[i]:
                        nodes = [[n, nodes + ["y"]], "z"]
                nodes = ["t%d." % len(drawn)] + nodes
                if o["obj"] is not None:
                    real, own = elsie.TextStyle(**o["obj"]), o["obj"]
                else:
                    n = name if name in model[i] else "default"
                    real, own = n, model[i][n]
                base = model[i]["default"] if real == "default" else over(model[i]["default"], own)
                text = texts.printed(nodes, "~{}")
                if o["code"]:
                    scopes[i].code("", text, style=real, use_styles=True)
                else:
                    scopes[i].text(text, style=real)
                drawn.append((slide_of[i], scopes[i], dict(base), {k: dict(v) for k, v in model[i].items()}, nodes))
            elif o["t"] == "reject":
                s = scopes[i]
                how = o["how"]
                if how == "get":
                    expect_reject("get_style of an unknown style", lambda: s.get_style("nope"))
                elif how == "update":
                    expect_reject("update_style of an unknown style", lambda: s.update_style("nope", elsie.TextStyle(size=1)))
                elif how == "base":
                    expect_reject("set_style with an unknown base", lambda: s.set_style("n9", elsie.TextStyle(size=1), base="nope"))
                elif how == "type":
                    expect_reject("a style of a wrong type", lambda: s.set_style("n9", 12))
                elif kinds[i] != "deck" and how == "text":
                    expect_reject("text with an unknown style", lambda: s.text("x", style="nope"))
            labels.add("op " + o["t"])
            for j, s in enumerate(scopes):
                for n in NAMES + ["nope", "n9"]:
                    require(s.has_style(n) == (n in model[j]), "after %r: has_style(%r) of scope %d (%s) is %r", o, n, j, kinds[j], s.has_style(n))
                    if n not in model[j]:
                        continue
                    got = read(s.get_style(n))
                    want = norm(model[j][n])
                    require(got == want, "after %r: style %r of scope %d (%s, parent %s) is %r, expected %r", o, n, j, kinds[j], parents[j], got, want)
                    if n != "default":
                        got = read(s.get_style(n, full_style=True))
                        want = norm(over(model[j]["default"], model[j][n]))
                        require(got == want, "after %r: full style %r of scope %d is %r, expected %r", o, n, j, got, want)
            for style, a in zip(shared, spec.get("shared", ())):
                require(read(style) == norm(a), "after %r: the style object given to set_style is %r, it was %r", o, read(style), norm(a))
        roots = sut.svgs(deck)
        found = [texts.text_elements(r) for r in roots]
        for s in range(len(slides)):
            mine = [d for d in drawn if d[0] == s]
            require(len(found[s]) == len(mine), "%d texts on slide %d instead of %d", len(found[s]), s, len(mine))
            by_name = {"".join(e.itertext()).split(".")[0]: e for e in found[s]}
            for d in mine:
                e = by_name.get(d[4][0][:-1])
                require(e is not None, "text %r is not drawn on slide %d", d[4][0], s)
                base, styles, nodes = d[2], d[3], d[4]
                got = texts.flatten(e, base["size"] * base["line_spacing"])
                texts.compare(got, texts.expected_lines(nodes, base, styles))
                require(e.get("text-anchor") == {"left": "start", "middle": "middle", "right": "end"}[base["align"]], "alignment %r instead of %r", e.get("text-anchor"), base["align"])
    return sorted(labels)
