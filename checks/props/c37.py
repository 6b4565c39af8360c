"""C37: export to PPTX."""
import io
import os
import sys
import types

from hypothesis import strategies as st

from vlib import ink, sut
from vlib.core import expect_reject, judged, require

ID = "C37"
RULE = ("decks of 1-6 slides with 1-4 fragments on both backends, exported 1-3 times by export_pptx() with and without select_slides, slide_postprocessing and prune_cache, after other exports, with slides added between the exports; "
        "a stand-in for python-pptx with 1-12 layouts (with or without one named Blank) of any size records what it is given; pictures, their order, places and sizes, the layout and the file are compared with the deck; "
        "non-trivial: 3 pictures, or a selection")
ASSUMPTIONS = ["python-pptx is not installed: a stand-in with the same interface reads a picture when it is added", "no raw PDFs"]
CASES = {"quick": 2500, "thorough": 20000}

COLOURS = [(200, 20, 20), (20, 200, 20), (20, 20, 200), (200, 200, 20), (20, 200, 200), (200, 20, 200), (120, 120, 120), (250, 250, 250), (10, 10, 10)]
LAYOUTS = ["Title Slide", "Title and Content", "Section Header", "Two Content", "Comparison", "Title Only", "Content with Caption", "Blank slide", "blank", " Blank"]


@st.composite
def strategy_(draw, tier):
    colours = st.lists(st.integers(0, len(COLOURS) - 1), min_size=1, max_size=4)
    slides = draw(st.lists(colours, min_size=1, max_size=6 if tier == "quick" else 15))
    layouts = draw(st.lists(st.sampled_from(LAYOUTS), max_size=11))
    if draw(st.sampled_from([True] * 7 + [False])):
        layouts.insert(draw(st.integers(0, len(layouts))), "Blank")
    run = st.fixed_dictionaries({
        "select": st.one_of(st.none(), st.none(), st.lists(st.integers(0, 20), min_size=1, max_size=4)), "post": st.booleans(), "prune": st.sampled_from([None, None, True, False]),
        "name": st.sampled_from(["out.pptx", "my slides.pptx", "\u010d.pptx", "noext"]), "before": st.sampled_from([None, None, "png", "units"]), "add": st.one_of(st.none(), st.none(), colours)})
    return {"backend": draw(st.sampled_from(["ink", "ink", "cairo"])), "wh": draw(st.sampled_from([[64, 48], [80, 80], [101, 77]])), "slides": slides, "layouts": layouts,
            "page": [draw(st.integers(1, 10 ** 7)), draw(st.integers(1, 10 ** 7))], "runs": draw(st.lists(run, min_size=1, max_size=3)), "twins": draw(st.booleans())}


def strategy(tier):
    return strategy_(tier)


class Layout:
    def __init__(self, name):
        self.name = name


class Layouts(list):
    def get_by_name(self, name, default=None):
        return next((x for x in self if x.name == name), default)


class Shapes(list):
    def add_picture(self, image_file, left, top, width=None, height=None):
        if isinstance(image_file, (str, os.PathLike)):
            with open(image_file, "rb") as f:
                data = f.read()
        else:
            data = image_file.read()
        self.append((data, left, top, width, height))
        return self[-1]


class Slide:
    def __init__(self, layout):
        self.slide_layout = layout
        self.shapes = Shapes()


class Slides(list):
    def add_slide(self, slide_layout):
        self.append(Slide(slide_layout))
        return self[-1]


def stand_in(spec, saved):
    class Presentation:
        def __init__(self, pptx=None):
            require(pptx is None, "the presentation is based on %r", pptx)
            self.slide_layouts = Layouts(Layout(n) for n in spec["layouts"])
            self.slides = Slides()
            self.slide_width, self.slide_height = spec["page"]

        def save(self, file):
            saved.append((file, self))

    m = types.ModuleType("pptx")
    m.Presentation = Presentation
    return m


def check(spec, env):
    saved = []
    work = env.fresh_dir("pptx")
    before = sys.modules.get("pptx")
    sys.modules["pptx"] = stand_in(spec, saved)
    try:
        with judged("exporting to PPTX"):
            return exports(spec, env, work, saved)
    finally:
        if before is None:
            sys.modules.pop("pptx", None)
        else:
            sys.modules["pptx"] = before
        env.drop(work)


def exports(spec, env, work, saved):
    from PIL import Image

    from elsie.ext.export import export_pptx

    W, H = spec["wh"]
    cairo = spec["backend"] == "cairo"
    labels = {spec["backend"]}
    deck = sut.make_deck(env, cache_dir=os.path.join(work, "cache"), backend="cairo" if cairo else None, width=W, height=H)
    slides, models = [], []

    def add(colours):
        box = deck.new_slide()
        for k, c in enumerate(colours):
            box.box(x=0, y=0, width="100%", height="100%", show="%d+" % (k + 1)).rect(bg_color="#%02x%02x%02x" % COLOURS[c])
        slides.append(box)
        models.append([COLOURS[c] for c in colours])

    for c in spec["slides"]:
        add(c)
        if spec["twins"]:
            add(c)
    for r in spec["runs"]:
        if r["add"]:
            add(r["add"])
        chosen = list(range(len(slides)))
        args = {}
        if r["select"]:
            chosen = [i % len(slides) for i in r["select"]]
            args["select_slides"] = [slides[i].slide for i in chosen]
            labels.update(("selection", "nontrivial"))
        if r["prune"] is not None:
            args["prune_cache"] = r["prune"]
        if r["before"] == "png":
            deck.render(None, export_type="png")
        elif r["before"]:
            sut.render_units(deck)
        if r["post"]:
            # one more fragment for each slide
            def post(boxes):
                require(len(boxes) == len(chosen), "slide_postprocessing is given %d boxes for %d slides", len(boxes), len(chosen))
                for i, b in zip(chosen, boxes):
                    models[i].append((1, 2, 3))
                    b.box(x=0, y=0, width="100%", height="100%", show="%d+" % len(models[i])).rect(bg_color="#010203")

            args["slide_postprocessing"] = post
            labels.add("postprocessing")
        out = os.path.join(work, r["name"])
        del saved[:]
        if "Blank" not in spec["layouts"]:
            expect_reject("a template without a blank layout", lambda: export_pptx(deck, out, **args))
            require(not saved, "a presentation is saved without a blank layout")
            return ["no blank layout"]
        export_pptx(deck, out, **args)
        require(len(saved) == 1, "%d presentations are saved", len(saved))
        name, pr = saved[0]
        require(os.fspath(name) == out, "the presentation is saved as %r, expected %r", name, out)
        want = [c for i in chosen for c in models[i]]
        require(len(pr.slides) == len(want), "the presentation has %d slides, expected %d", len(pr.slides), len(want))
        sources = []
        if not cairo:
            sources = [u.get_svg() for u in sut.render_units(deck, **({"select_slides": args["select_slides"]} if "select_slides" in args else {}))]
        for k, (s, c) in enumerate(zip(pr.slides, want)):
            require(s.slide_layout.name == "Blank", "slide %d has the layout %r", k + 1, s.slide_layout.name)
            require(len(s.shapes) == 1, "slide %d has %d pictures", k + 1, len(s.shapes))
            data, left, top, width, height = s.shapes[0]
            require((left, top, width, height) == (0, 0) + tuple(spec["page"]), "the picture of slide %d is at %r, the slide has %r", k + 1, (left, top, width, height), spec["page"])
            if cairo:
                im = Image.open(io.BytesIO(data)).convert("RGB")
                for at in ((0.1, 0.1), (0.5, 0.5), (0.9, 0.9)):
                    px = im.getpixel((int(im.size[0] * at[0]), int(im.size[1] * at[1])))
                    require(all(abs(x - y) <= 2 for x, y in zip(px, c)), "slide %d has the colour %r, expected %r", k + 1, px, c)
            else:
                path = os.path.join(work, "picture.png")
                with open(path, "wb") as f:
                    f.write(data)
                root = sut.parse_svg(sources[k])
                last = [sut.style_of(e).get("fill") for e in root.iter() if sut.local(e) == "rect"][-1]
                require(last == "#%02x%02x%02x" % c, "fragment %d of the deck is painted %s", k + 1, last)
                import hashlib

                require(ink.content_of(path)[0] == hashlib.sha1(sources[k].encode()).hexdigest(), "the picture of slide %d is another one", k + 1)
        if len(want) >= 3:
            labels.add("nontrivial")
    return sorted(labels)
