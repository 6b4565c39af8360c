"""C22: order of pages, subsets, grids and raw PDF pages."""
import os

from hypothesis import strategies as st

from vlib import decks, geom, sut
from vlib.core import close, expect_reject, judged, require

ID = "C22"
RULE = ("decks of 0-6 slides (made by new_slide and the decorator, with fragments, backgrounds and view boxes) and raw PDF pages, rendered 1-4 times, also between additions, with subsets in any order, "
        "grids from 1x1 to 4x3 and postprocessing that adds marks and fragments; pages, their order, fragments, contents and grid cells are compared with a model, malformed arguments have to be refused; "
        "non-trivial: 4 pages and a subset, a grid, a raw PDF or postprocessing")
ASSUMPTIONS = ["grids are rendered without raw PDF pages", "a slide is selected at most once"]
CASES = {"quick": 7500, "thorough": 60000}

SHOW = st.one_of(st.none(), st.none(), st.integers(1, 4), st.sampled_from(["next", "next", "2+", "last", "1-2", "1,3", "next+"]))


@st.composite
def slide(draw):
    v = {"t": "slide", "boxes": draw(st.lists(SHOW, max_size=5)), "how": draw(st.sampled_from(["new", "new", "decorator"])), "bg": draw(st.booleans()), "view_box": None,
         "name": draw(st.sampled_from([None, "a", "b"]))}
    if draw(st.integers(0, 5)) == 0:
        v["view_box"] = [draw(st.integers(-20, 20)), draw(st.integers(-20, 20)), draw(st.integers(50, 900)), draw(st.integers(50, 900))]
    return v


@st.composite
def render(draw, grids):
    v = {"t": "render", "select": draw(st.one_of(st.none(), st.none(), st.lists(st.integers(0, 7), min_size=1, max_size=5))), "grid": None, "post": draw(st.sampled_from([None, None, None, 1, 3]))}
    if grids and draw(st.booleans()):
        v["grid"] = [draw(st.integers(1, 4)), draw(st.integers(1, 3))]
    bad = draw(st.integers(0, 11))
    if bad == 0:
        v["bad"] = draw(st.sampled_from(["empty", [1], [1, 2, 3], [1.5, 2], ["2", 2], [2, 2.0], [0, 2], [2, 0], [-1, -2], [0, 0]]))
    return v


@st.composite
def strategy_(draw, tier):
    grids = draw(st.booleans())
    actions = [slide()] * 3 + [render(grids)] + ([] if grids else [st.fixed_dictionaries({"t": st.just("pdf"), "file": st.integers(0, 2), "relative": st.booleans()})])
    out = draw(st.lists(st.one_of(*actions), min_size=draw(st.sampled_from([0, 2, 4, 4])), max_size=8 if tier == "quick" else 16)) + [draw(render(grids))]
    return {"wh": draw(st.sampled_from([[640, 480], [300, 200], [101, 77]])), "bg": draw(st.booleans()), "actions": out}


def strategy(tier):
    return strategy_(tier)


class Page:
    """A slide of the model."""

    def __init__(self, number, conf, deck_bg):
        self.number = number
        self.filename = None
        self.current = 1
        self.marks = []
        if conf["bg"]:
            self.marks.append((([], 1), number * 50 + 49))
        elif deck_bg:
            self.marks.append((([], 1), 0xF000))
        for i, show in enumerate(conf["boxes"]):
            self.add(show, number * 50 + i)

    def add(self, show, mark):
        s = decks.selection(show, self.current)
        self.current = max(self.current, decks.named(s))
        self.marks.append((s, mark))

    def painted(self, step):
        return [m for s, m in self.marks if decks.selected(s, step)]


def pdf_file(env, i):
    return decks.asset(env, ".pdf", "%%PDF raw %d" % i)


def build(deck, conf, number):
    def fill(box):
        for i, show in enumerate(conf["boxes"]):
            kw = {} if show is None else {"show": show}
            box.box(width=10, height=10, **kw).rect(bg_color=sut.colour(number * 50 + i))

    kw = {}
    if conf["bg"]:
        kw["bg_color"] = sut.colour(number * 50 + 49)
    if conf["view_box"]:
        kw["view_box"] = tuple(conf["view_box"])
    if conf["name"]:
        kw["name"] = conf["name"]
    if conf["how"] == "new":
        box = deck.new_slide(**kw)
        fill(box)
        return box.slide

    @deck.slide(**kw)
    def made(box):
        fill(box)

    return made


def page_marks(root):
    return [decks.mark_of(e) for e in root if isinstance(e.tag, str)]


def check(spec, env):
    labels = set()
    W, H = spec["wh"]
    kw = {"bg_color": sut.colour(0xF000)} if spec["bg"] else {}
    with judged("rendering"):
        deck = sut.make_deck(env, width=W, height=H, **kw)
        model, objects = [], []
        post_mark = [0xE000]
        for a in spec["actions"]:
            if a["t"] == "slide":
                model.append(Page(len(model), a, spec["bg"]))
                objects.append(build(deck, a, model[-1].number))
                continue
            if a["t"] == "pdf":
                path = pdf_file(env, a["file"])
                p = Page(len(model), {"bg": False, "boxes": []}, False)
                p.filename = path
                model.append(p)
                objects.append(None)
                deck.add_pdf(os.path.relpath(path) if a["relative"] else path)
                labels.add("raw PDF")
                continue
            own = [i for i, p in enumerate(model) if p.filename is None]
            chosen = list(range(len(model)))
            args = {}
            if a["select"] is not None and own:
                chosen = list(dict.fromkeys(own[i % len(own)] for i in a["select"]))
                args["select_slides"] = [objects[i] for i in chosen]
            if a["grid"]:
                args["slides_per_page"] = tuple(a["grid"])
            if a.get("bad"):
                if a["bad"] == "empty":
                    bad = dict(args, select_slides=[])
                else:
                    bad = dict(args, slides_per_page=tuple(a["bad"]))
                expect_reject("render(%r)" % (bad,), lambda: sut.render_units(deck, **bad))
                labels.add("refused")
            if not model:
                expect_reject("rendering an empty deck", lambda: sut.render_units(deck, **args))
                labels.add("empty deck")
                continue
            calls = []
            if a["post"] is not None:
                labels.add("postprocessing")

                def post(boxes):
                    calls.append(len(boxes))
                    for i, b in enumerate(boxes):
                        b.box(x=0, y=0, width=1, height=1, show=a["post"]).rect(bg_color=sut.colour(post_mark[0] + i))

                args["slide_postprocessing"] = post
                shown = [model[i] for i in chosen if model[i].filename is None]
                for i, p in enumerate(shown):
                    p.add(a["post"], post_mark[0] + i)
            units = sut.render_units(deck, **args)
            if a["post"] is not None:
                require(calls == [len(shown)], "postprocessing was called with %r boxes, expected one call with %d", calls, len(shown))
                post_mark[0] += 20
            pages = [(i, step) for i in chosen for step in range(1, model[i].current + 1)]
            grid = a["grid"]
            if grid and grid[0] * grid[1] > 1:
                labels.add("grid")
                single = sut.render_units(deck, **{k: v for k, v in args.items() if k == "select_slides"})
                require(len(single) == len(pages), "%d pages, expected %r", len(single), pages)
                size = grid[0] * grid[1]
                require(len(units) == -(-len(pages) // size), "%d grids of %r for %d pages", len(units), grid, len(pages))
                for n, u in enumerate(units):
                    root = sut.parse_svg(u.get_svg())
                    require(close(sut.fl(root, "width"), W * grid[0]) and close(sut.fl(root, "height"), H * grid[1]), "a grid of %r has size %r", grid, (root.get("width"), root.get("height")))
                    vb = root.get("viewBox")
                    require(vb is None or [float(v) for v in vb.replace(",", " ").split()] == [0, 0, W * grid[0], H * grid[1]], "a grid has view box %r", vb)
                    cells = [e for e in root if isinstance(e.tag, str)]
                    mine = pages[n * size:(n + 1) * size]
                    require(len(cells) == len(mine), "grid %d has %d cells, expected %d", n, len(cells), len(mine))
                    for c, (cell, (i, step)) in enumerate(zip(cells, mine)):
                        at = geom.parse_transform(cell.get("transform"))
                        require(geom.same(at, geom.translate(c % grid[0] * W, c // grid[0] * H)), "cell %d of a grid %r has transform %r", c, grid, cell.get("transform"))
                        (inner,) = list(cell)
                        one = single[n * size + c]
                        require(decks.canonical(inner) == decks.canonical(sut.parse_svg(one.get_svg())), "cell %d of grid %d differs from page %r", c, n, (i, step))
                        require(page_marks(inner) == model[i].painted(step), "cell %d of grid %d shows %r, expected %r", c, n, page_marks(inner), model[i].painted(step))
            else:
                require(len(units) == len(pages), "%d pages, expected %r", len(units), pages)
                for u, (i, step) in zip(units, pages):
                    p = model[i]
                    if p.filename is not None:
                        require(u.get_svg() is None and os.path.realpath(u.filename) == os.path.realpath(p.filename), "page of slide %d is not the raw PDF", i)
                        continue
                    require(u.slide is objects[i], "a page of slide %d names slide %r", i, objects.index(u.slide) if u.slide in objects else u.slide)
                    require(u.step == step, "fragment %d of slide %d names fragment %r", step, i, u.step)
                    root = sut.parse_svg(u.get_svg())
                    got = page_marks(root)
                    require(got == p.painted(step), "fragment %d of slide %d shows %r, expected %r", step, i, got, p.painted(step))
                    require(close(sut.fl(root, "width"), W) and close(sut.fl(root, "height"), H), "page of size %r", (root.get("width"), root.get("height")))
            if "select_slides" in args:
                labels.add("subset")
            if len(pages) >= 4 and labels & {"subset", "grid", "raw PDF", "postprocessing"}:
                labels.add("nontrivial")
    return sorted(labels)
