"""C38: placeholders."""
from hypothesis import strategies as st

from vlib import decks, sut, texts
from vlib.core import judged, require, require_close

ID = "C38"
RULE = ("1-3 slides (named or not, also decorated) with 1-4 hosts (named or not, of any place, padding and selector, or the slide itself), each with 1-3 placeholders with given, inherited, empty or no names and content added to the returned box; "
        "frames, texts, their places and the fragments in which they are drawn are compared with a model; non-trivial: two placeholders in a host, an inherited name or a selector")
ASSUMPTIONS = ["hosts are large enough for their texts; names have no '~', the host is a box and has no other content"]
CASES = {"quick": 3000, "thorough": 25000}

NAME = st.one_of(st.none(), st.none(), st.sampled_from(["", "intro", "a & <b>", "\u010d\u00e1st 1", "two words", "TODO", "x\ny", "{a}", "1"]))


@st.composite
def strategy_(draw, tier):
    def todo():
        return st.fixed_dictionaries({"name": st.one_of(st.none(), NAME), "given": st.booleans(), "inside": st.booleans()})

    host = st.fixed_dictionaries({
        "root": st.sampled_from([False, False, False, True]), "name": NAME, "xywh": st.tuples(st.integers(0, 300), st.integers(0, 200), st.integers(600, 900), st.integers(500, 800)).map(list),
        "pads": st.lists(st.integers(0, 15), min_size=4, max_size=4), "horizontal": st.booleans(), "show": st.one_of(st.none(), st.none(), decks.SELECT), "todos": st.lists(todo(), min_size=1, max_size=3)})
    slide = st.fixed_dictionaries({"name": NAME, "decorated": st.booleans(), "hosts": st.lists(host, min_size=1, max_size=4)})
    return {"slides": draw(st.lists(slide, min_size=1, max_size=3))}


def strategy(tier):
    return strategy_(tier)


W, H = 1600, 1200


def check(spec, env):
    labels = set()
    with judged("placeholders"):
        from elsie.ext.todo import todo_placeholder

        deck = sut.make_deck(env, width=W, height=H)
        pages = []
        for si, s in enumerate(spec["slides"]):
            plan = []  # (area, name, selection, marked inside)
            count = [1]

            def fill(root, slide_name):
                used = False
                for h in s["hosts"]:
                    if h["root"] and not used and len(s["hosts"]) == 1:
                        used, host, name, sel = True, root, slide_name, decks.selection(None, 1)
                        area, horizontal = (0, 0, W, H), False
                    else:
                        x, y, w, hh = h["xywh"]
                        l, r, t, d = h["pads"]
                        sel = decks.selection(h["show"], count[0])
                        host = root.box(x=x, y=y, width=w, height=hh, p_left=l, p_right=r, p_top=t, p_bottom=d, horizontal=h["horizontal"], name=h["name"], show=h["show"])
                        count[0] = max(count[0], decks.named(sel))
                        area, horizontal, name = (x + l, y + t, w - l - r, hh - t - d), h["horizontal"], h["name"]
                        if h["show"] is not None:
                            labels.update(("selector", "nontrivial"))
                    n = len(h["todos"])
                    if n > 1:
                        labels.update(("several in a host", "nontrivial"))
                    for k, t in enumerate(h["todos"]):
                        x, y, w, hh = area
                        part = (x + k * w / n, y, w / n, hh) if horizontal else (x, y + k * hh / n, w, hh / n)
                        m = len(plan)
                        if t["given"] and t["name"] is not None:
                            box, shown = todo_placeholder(host, t["name"]), t["name"]
                        else:
                            box, shown = todo_placeholder(host), name
                            if name:
                                labels.update(("inherited name", "nontrivial"))
                        require(box is not None and hasattr(box, "box"), "todo_placeholder() returned %r", box)
                        if t["inside"]:
                            box.rect(color=sut.colour(m), stroke_width=1)
                        plan.append((part, shown, sel, t["inside"]))

            if s["decorated"]:
                name = s["name"] or "deco"

                def deco(slide):
                    fill(slide, name)

                deck.slide(name)(deco)
            else:
                fill(deck.new_slide(s["name"]), s["name"])
            for step in range(1, count[0] + 1):
                pages.append((si, step, [(i,) + p for i, p in enumerate(plan) if decks.selected(p[2], step)]))
        roots = sut.svgs(deck)
        require(len(roots) == len(pages), "%d pages, expected %d", len(roots), len(pages))
        for root, (si, step, plan) in zip(roots, pages):
            where = "slide %d, fragment %d" % (si + 1, step)
            frames = [sut.rect_of(e) for e in root if sut.local(e) == "rect" and not (sut.style_of(e).get("stroke") or "").startswith("#1")]
            inside = {sut.style_of(e).get("stroke"): sut.rect_of(e) for e in root if sut.local(e) == "rect" and (sut.style_of(e).get("stroke") or "").startswith("#1")}
            drawn = texts.text_elements(root)
            require(len(drawn) == len(plan) and len(frames) >= len(plan), "%s: %d texts and %d frames for %d placeholders", where, len(drawn), len(frames), len(plan))
            per = len(frames) // max(1, len(plan))
            require(per * len(plan) == len(frames), "%s: %d frames for %d placeholders", where, len(frames), len(plan))
            rest = list(frames)
            for e, (i, area, name, _, marked) in zip(drawn, plan):
                x, y, w, h = area
                lines = [("".join(c for c, _ in line)).replace("\u00a0", " ") for line in texts.flatten(e, 28 * 1.2)]
                want = ["TODO"] + (name.split("\n") if name else [])
                require(lines == want, "%s: the placeholder shows %r, expected %r", where, lines, want)
                require(e.get("text-anchor") == "middle", "%s: the text of a placeholder is not centred", where)
                require_close(sut.fl(e, "x"), x + w / 2, "%s: centre of the text of a placeholder in %r" % (where, area))
                mine = rest[:per]
                del rest[:per]
                outer = mine[0]
                for q in mine:
                    require_close(q[0] + q[2] / 2, x + w / 2, "%s: centre of a frame of the placeholder in %r" % (where, area))
                    require_close(q[1] + q[3] / 2, y + h / 2, "%s: centre of a frame of the placeholder in %r" % (where, area))
                    require(q[2] <= w + 1e-6 and q[3] <= h + 1e-6, "%s: the frame %r leaves the area %r of the placeholder", where, q, area)
                # it fills its place up to a narrow border
                require(outer[2] >= w - 20 and outer[3] >= h - 20, "%s: the frame %r does not fill %r", where, outer, area)
                if marked:
                    got = inside.get(sut.colour(i))
                    require(got is not None, "%s: content of the returned box is not drawn", where)
                    require(all(abs(a - b) < 1e-6 for a, b in zip(got, outer)), "%s: the returned box has the area %r, its frame is %r", where, got, outer)
            require(set(inside) == {sut.colour(p[0]) for p in plan if p[4]}, "%s: contents %r drawn", where, sorted(inside))
    return sorted(labels)
