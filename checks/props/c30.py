"""C30: the notebook view."""
import base64
import hashlib
import os
import re

from hypothesis import strategies as st

from vlib import cairo_util, decks, ink, page, sut
from vlib.core import Skip, judged, require

ID = "C30"
RULE = ("decks of 1-3 slides with all items, fragments, z-levels and view boxes, and histories of 1-6 views (SVG, PNG, the default view of a slide or of a box) and renders (units, PDF); all views are put on one page, "
        "whose HTML is parsed and whose scripts are run over a minimal document with a random sequence of clicks on the buttons of any view; drawings, pictures, shown fragments, buttons and the files of the cache are compared "
        "with a twin deck that is only rendered; non-trivial: a view with several fragments")
ASSUMPTIONS = ["the simulated Inkscape (pictures identify the drawing they were made from); a small simulated document instead of a browser", "raw PDF pages are not viewed"]
CASES = {"quick": 1040, "thorough": 14000}


@st.composite
def strategy_(draw, tier, backend):
    prog = draw(decks.programs(max_ops=6 if tier == "quick" else 12, show=0.5, z=0.2, view_box=0.2, names=True, item_share=0.6, **({"kinds": decks.SHAPES + ("png",)} if backend else {})))
    how = ["svg", "png", "slide", "box", "units", "pdf", "png file"] if not backend else ["png", "slide", "box", "units", "png file"]
    return {"prog": prog, "debug": draw(st.integers(0, 5)) == 0, "acts": draw(st.lists(st.tuples(st.sampled_from(how), st.integers(0, 2), st.integers(0, 9)).map(list), min_size=1, max_size=6)),
            "clicks": draw(st.lists(st.tuples(st.integers(0, 5), st.integers(0, 2)).map(list), max_size=12))}


def listing(d):
    out = {}
    for name in os.listdir(d):
        with open(os.path.join(d, name), "rb") as f:
            out[name] = hashlib.sha1(f.read()).hexdigest()
    return out


def check(spec, env, backend=None):
    from elsie.render.jupyter import render_slide_html

    prog = spec["prog"]
    labels = set()
    with judged("views of a deck"):
        cache = sut.case_dir(env)
        deck = decks.build(env, prog, cache_dir=cache, backend=backend)
        slides = []
        objs = []
        deck = sut.make_deck(env, cache_dir=cache, backend=backend, **decks.deck_kwargs(prog))
        for s in range(len(prog["slides"])):
            objs.append(decks.build_slide(env, deck, prog, s))
            slides.append(objs[-1][0].slide)
        twin_dir = env.fresh_dir("twin")
        twin = decks.build(env, prog, cache_dir=twin_dir, backend=backend)
        counts = [decks.SlideModel(prog, s).steps for s in range(len(slides))]
        units = sut.render_units(twin, export_type="png" if backend else "pdf")
        require(len(units) == sum(counts), "%d fragments, expected %r", len(units), counts)
        want = []
        for n in counts:
            want.append([cairo_util.pixels(u) for u in units[:n]] if backend else [u.get_svg() for u in units[:n]])
            units = units[n:]
        views = []  # (slide, format, html)
        for how, s, k in spec["acts"]:
            s %= len(slides)
            labels.add(how)
            before = listing(cache)
            if how == "units":
                same(sut.render_units(deck, export_type="png" if backend else "pdf"), sum(want, []), backend)
            elif how == "pdf":
                deck.render(os.path.join(env.root, "out.pdf"), prune_cache=False, pdf_merger=None)
            elif how == "png file":
                paths = deck.render(None, export_type="png", prune_cache=False)
                require(len(paths) == sum(counts), "%d pictures, expected %d", len(paths), sum(counts))
            elif how in ("svg", "png"):
                views.append((s, how, render_slide_html(slides[s], how)))
            elif how == "slide":
                views.append((s, "png", slides[s]._repr_html_()))
            else:
                box = objs[s][k % len(objs[s])]
                views.append((s, "png", getattr(box, "_repr_html_", slides[s]._repr_html_)()))
            after = listing(cache)
            for name, content in before.items():
                require(name in after, "%s removed the file %r", how, name)
                if name.endswith((".png", ".pdf", ".svg")):
                    require(after[name] == content, "%s changed the file %r", how, name)
            require([sl.current_fragment() for sl in slides] == counts, "fragments of slides %r, expected %r", [sl.current_fragment() for sl in slides], counts)
            require(len(deck._slides) == len(slides) if hasattr(deck, "_slides") else True, "the number of slides changed")
        same(sut.render_units(deck, export_type="png" if backend else "pdf"), sum(want, []), backend)
        env.drop(twin_dir)
        if not views:
            return sorted(labels)
        html = "\n".join(v[2] for v in views)
        pg = page.Page(html)
        require(not pg.problems, "the HTML of the views: %s", pg.problems[:3])
        tops = [e for e in pg.root.children if e.find("elsie-step")]
        require(len(tops) == len(views), "%d elements with fragments for %d views", len(tops), len(views))
        clickable = []
        for (s, fmt, _), top in zip(views, tops):
            n = counts[s]
            steps = top.find("elsie-step")
            require([[c for c in e.classes if re.fullmatch(r"step-\d+", c)] for e in steps] == [["step-%d" % (i + 1)] for i in range(n)], "fragments %r of a slide with %d", [e.classes for e in steps], n)
            for e, w in zip(steps, want[s]):
                if fmt == "svg":
                    require(decks.canonical(sut.parse_svg(e.source.strip())) == decks.canonical(sut.parse_svg(w)), "the drawing of a fragment in the view is not the one of render()")
                else:
                    require(len(e.children) == 1 and e.children[0].tag == "img", "a fragment of a PNG view holds %r", [c.tag for c in e.children])
                    m = re.fullmatch(r"\s*data:image/png;base64,(.*)", e.children[0].attrs.get("src", ""), re.S)
                    require(m is not None, "the source of a picture starts with %r", e.children[0].attrs.get("src", "")[:40])
                    path = os.path.join(env.root, "view.png")
                    with open(path, "wb") as f:
                        f.write(base64.b64decode("".join(m.group(1).split()), validate=True))
                    if backend:
                        from PIL import Image

                        im = Image.open(path)
                        im.load()
                        got = repr(im.size) + im.mode + im.tobytes().hex()
                        require(got == w, "the picture of a fragment in the view is not the one of render()")
                    else:
                        require(ink.content_of(path)[0] == hashlib.sha1(w.encode()).hexdigest(), "the picture of a fragment in the view was not made from its drawing")
            buttons = [top.find("elsie-previous"), top.find("elsie-next")]
            if n == 1:
                require(not buttons[0] and not buttons[1] and not [e for e in top.all() if e.tag == "script"], "a slide with one fragment has controls")
            else:
                require(len(buttons[0]) == 1 and len(buttons[1]) == 1, "%d and %d buttons for a slide with %d fragments", len(buttons[0]), len(buttons[1]), n)
                labels.add("nontrivial")
                if len(views) > 1:
                    labels.add("several views")
            clickable.append(buttons)
        clicks = []
        moves = []
        for v, b in spec["clicks"]:
            v %= len(views)
            b = min(b, 1)
            if clickable[v][b]:
                clicks.append(clickable[v][b][0])
                moves.append((v, 2 * b - 1))
        number, answer = page.play(env, pg, clicks)
        if "unsupported" in answer:
            raise Skip("the scripts use %s" % answer["unsupported"])
        if "broken" in answer:
            raise RuntimeError(answer["broken"])
        require("error" not in answer, "the scripts of the views raise %r", answer.get("error"))
        at = [1] * len(views)
        for i, state in enumerate(answer["states"]):
            if i:
                v, d = moves[i - 1]
                at[v] = min(max(at[v] + d, 1), counts[views[v][0]])
            for v, top in enumerate(tops):
                n = counts[views[v][0]]
                shown = [k + 1 for k, e in enumerate(top.find("elsie-step")) if state[number[id(e)]]["display"] != "none"]
                require(shown == [at[v]], "after clicks %r view %d shows fragments %r, expected %d", moves[:i], v, shown, at[v])
                if n > 1:
                    off = [state[number[id(clickable[v][b][0])]]["disabled"] for b in (0, 1)]
                    require(off == [at[v] == 1, at[v] == n], "after clicks %r the buttons of view %d at fragment %d of %d are disabled: %r", moves[:i], v, at[v], n, off)
                    said = [state[number[id(e)]]["text"] for e in top.find("elsie-current-step")]
                    require(len(said) == 1 and re.findall(r"\d+", said[0])[:1] == [str(at[v])], "view %d at fragment %d says %r", v, at[v], said)
    return sorted(labels)


def same(units, want, backend):
    got = [cairo_util.pixels(u) if backend else u.get_svg() for u in units]
    require(got == want, "the drawings differ after views")


SUITES = {
    "inkscape": {"strategy": lambda tier: strategy_(tier, None), "check": check, "share": 0.8},
    "cairo": {"strategy": lambda tier: strategy_(tier, "cairo"), "check": lambda spec, env: check(spec, env, "cairo"), "share": 0.2},
}
