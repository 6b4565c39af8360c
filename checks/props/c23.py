"""C23: the written document."""
import hashlib
import os
import re
import subprocess

from hypothesis import strategies as st

from vlib import forked, sut
from vlib.core import expect_reject, judged, require

ID = "C23"
RULE = ("decks of 1-5 slides with 1-3 fragments (also identical ones) and raw PDFs of 1-3 pages, written 1-3 times with both mergers, both backends, subsets, grids, other export types, with and without pruning, over existing files; "
        "number, order, size and content of the pages of each document and the listed files are compared with the units (simulated Inkscape stamps the drawing into its export) or with the pictures (Cairo); "
        "suite broken: a raw PDF is missing, empty, truncated or no PDF when the document is written; suite many: up to 200 pages in processes that may have 12-20 more files open; non-trivial: 3 pages in a document, or 3 files")
ASSUMPTIONS = ["exports of Inkscape come from a simulated Inkscape that stamps a digest of the drawing into each", "raw PDFs only with export type pdf, grids only without raw PDFs"]

W_H = st.sampled_from([[640, 480], [300, 200], [101, 77], [1024, 768]])
COLOURS = [(200, 20, 20), (20, 200, 20), (20, 20, 200), (200, 200, 20), (20, 200, 200), (200, 20, 200), (120, 120, 120), (250, 250, 250), (10, 10, 10), (255, 130, 0)]


@st.composite
def render(draw, backend, raw, n):
    kind = draw(st.sampled_from(["pdf", "pdf", "pdf", "list", "png", "svg" if backend == "ink" else "png"]))
    v = {"kind": kind if kind in ("pdf", "list") or not raw else "pdf", "merger": draw(st.sampled_from(["pypdf", "pypdf", "pdfunite", None])),
         "prune": draw(st.sampled_from([None, True, False])), "existing": draw(st.booleans()), "name": draw(st.sampled_from(["out.pdf", "my slides.pdf", "\u010d.pdf", "nosuffix"])), "select": None, "grid": None,
         "relative": draw(st.booleans())}
    if draw(st.integers(0, 2)) == 0:
        v["select"] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4))
    if backend == "ink" and not raw and draw(st.integers(0, 2)) == 0:
        v["grid"] = [draw(st.integers(1, 3)), draw(st.integers(1, 2))]
    return v


def deck(backend, tier):
    @st.composite
    def f(draw):
        raw = draw(st.integers(0, 2)) == 0
        item = st.fixed_dictionaries({"colours": st.lists(st.integers(0, len(COLOURS) - 1), min_size=1, max_size=3)})
        if raw:
            item = st.one_of(item, item, st.fixed_dictionaries({"pdf": st.integers(0, 3)}))
        slides = draw(st.lists(item, min_size=1, max_size=5 if tier == "quick" else 9))
        return {"backend": backend, "wh": draw(W_H if backend == "ink" else st.sampled_from([[640, 480], [300, 200], [120, 77]])), "slides": slides,
                "renders": draw(st.lists(render(backend, raw, len(slides)), min_size=1, max_size=3))}

    return f()


@st.composite
def broken_strategy(draw, tier):
    slides = draw(st.lists(st.sampled_from(["slide", "raw"]), max_size=3))
    slides.insert(draw(st.integers(0, len(slides))), "bad")
    return {"slides": slides, "how": draw(st.sampled_from(["missing", "empty", "text", "short", "directory"])), "merger": draw(st.sampled_from(["pypdf", "pdfunite", "pdfunite"])),
            "backend": draw(st.sampled_from(["ink", "cairo"])), "after": draw(st.booleans()), "relative": draw(st.booleans()), "existing": draw(st.booleans())}


def broken(spec, env):
    """A raw PDF that cannot be read is not left out of the document silently."""
    work = env.fresh_dir("broken")
    old = os.getcwd()
    try:
        os.chdir(work)
        bad = os.path.join(work, "bad.pdf")
        good = os.path.join(work, "raw.pdf")
        for p in (bad, good):
            with open(p, "wb") as f:
                f.write(raw_pdf(2))
        out = os.path.join(work, "out.pdf")
        with judged("writing a document with a raw PDF that cannot be read"):
            deck = sut.make_deck(env, cache_dir=os.path.join(work, "cache"), backend="cairo" if spec["backend"] == "cairo" else None, width=100, height=80)
            for s in spec["slides"]:
                if s == "slide":
                    deck.new_slide().box(width=20, height=20).rect(bg_color="red")
                else:
                    p = bad if s == "bad" else good
                    deck.add_pdf(os.path.basename(p) if spec["relative"] else p)
            if spec["existing"]:
                deck.render(out, pdf_merger=spec["merger"])
            os.remove(bad)
            if spec["how"] == "directory":
                os.mkdir(bad)
            elif spec["how"] != "missing":
                with open(bad, "wb") as f:
                    f.write({"empty": b"", "text": b"this is no PDF\n" * 30, "short": raw_pdf(2)[:40]}[spec["how"]])
            expect_reject("writing a document (%s, %r) with a raw PDF that is %s" % (spec["merger"], spec["slides"], spec["how"]), lambda: deck.render(out, pdf_merger=spec["merger"]))
            if spec["after"]:
                # the same deck is fine when the file is
                if os.path.isdir(bad):
                    os.rmdir(bad)
                with open(bad, "wb") as f:
                    f.write(raw_pdf(2))
                deck.render(out, pdf_merger=spec["merger"])
                n = sum(1 if s == "slide" else RAW_PAGES[2] for s in spec["slides"])
                got = len(pages_of(out))
                require(got == n, "the document has %d pages, expected %d", got, n)
    finally:
        os.chdir(old)
        env.drop(work)
    return [spec["how"], spec["merger"], "raw PDF that cannot be read"] + (["nontrivial"] if len(spec["slides"]) > 1 else [])


def raw_pdf(i):
    """A PDF with 1-3 stamped pages."""
    n = [1, 2, 3, 1][i]
    objs = ["<< /Type /Catalog /Pages 2 0 R >>", "<< /Type /Pages /Kids [%s] /Count %d >>" % (" ".join("%d 0 R" % (3 + 2 * k) for k in range(n)), n)]
    for k in range(n):
        content = "%% raw-%d-%d\n%g %g %g rg 0 0 2000 2000 re f\n" % ((i, k) + tuple(c / 255 for c in raw_colour(i, k)))
        objs.append("<< /Type /Page /Parent 2 0 R /MediaBox [0 0 %d %d] /Contents %d 0 R /Resources << >> >>" % (100 + 10 * i, 50 + 10 * k, 4 + 2 * k))
        objs.append("<< /Length %d >>\nstream\n%sendstream" % (len(content), content))
    out = b"%PDF-1.4\n"
    offs = []
    for k, o in enumerate(objs):
        offs.append(len(out))
        out += b"%d 0 obj\n" % (k + 1) + o.encode() + b"\nendobj\n"
    x = len(out)
    out += b"xref\n0 %d\n0000000000 65535 f \n" % (len(objs) + 1) + b"".join(b"%010d 00000 n \n" % o for o in offs)
    return out + b"trailer\n<< /Size %d /Root 1 0 R >>\nstartxref\n%d\n%%%%EOF\n" % (len(objs) + 1, x)


def raw_colour(i, k):
    return (60 + 40 * i, 60 + 60 * k, 150)


RAW_PAGES = [1, 2, 3, 1]


def pages_of(path):
    """[(width, height, stamps)] of a PDF."""
    from PyPDF2 import PdfFileReader

    out = []
    with open(path, "rb") as f:
        r = PdfFileReader(f)
        for k in range(r.getNumPages()):
            p = r.getPage(k)
            c = p["/Contents"].getObject()
            data = b"\n".join(x.getObject().getData() for x in c) if isinstance(c, list) else c.getData()
            if isinstance(data, str):
                data = data.encode("latin-1")
            box = [float(v) for v in p.mediaBox]
            require(not p.get("/Rotate"), "page %d is rotated", k)
            out.append((box[2] - box[0], box[3] - box[1], re.findall(rb"% ([0-9a-f]{40}|raw-\d-\d)", data)))
    return out


def pictures(path, env):
    from PIL import Image

    d = env.fresh_dir("ppm")
    subprocess.run(["pdftoppm", "-r", "18", path, os.path.join(d, "p")], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    out = [Image.open(os.path.join(d, n)).convert("RGB") for n in sorted(os.listdir(d))]
    for im in out:
        im.load()
    env.drop(d)
    return out


def near(a, b):
    return all(abs(x - y) <= 3 for x, y in zip(a, b))


def check(spec, env):
    from PIL import Image

    W, H = spec["wh"]
    ink = spec["backend"] == "ink"
    labels = {spec["backend"]}
    work = env.fresh_dir("doc")
    old = os.getcwd()
    try:
        os.chdir(work)
        with judged("writing a document"):
            deck = sut.make_deck(env, cache_dir=os.path.join(work, "cache"), backend=None if ink else "cairo", width=W, height=H)
            slides = []
            for s in spec["slides"]:
                if "pdf" in s:
                    path = os.path.join(work, "raw%d.pdf" % s["pdf"])
                    with open(path, "wb") as f:
                        f.write(raw_pdf(s["pdf"]))
                    deck.add_pdf(path)
                    slides.append(None)
                    continue
                box = deck.new_slide()
                for k, c in enumerate(s["colours"]):
                    box.box(x=0, y=0, width="100%", height="100%", show=str(k + 1)).rect(bg_color="#%02x%02x%02x" % COLOURS[c])
                slides.append(box.slide)
            own = [i for i, s in enumerate(slides) if s is not None]
            for n, r in enumerate(spec["renders"]):
                args = {}
                chosen = list(range(len(slides)))
                if r["select"] is not None and own:
                    chosen = list(dict.fromkeys(own[i % len(own)] for i in r["select"]))
                    args["select_slides"] = [slides[i] for i in chosen]
                if r["grid"]:
                    args["slides_per_page"] = tuple(r["grid"])
                want = []  # (width, height in px, stamp or colour)
                if ink:
                    for u in sut.render_units(deck, **args):
                        svg = u.get_svg()
                        if svg is None:
                            want.append(u.filename)
                        else:
                            root = sut.parse_svg(svg)
                            want.append((sut.fl(root, "width"), sut.fl(root, "height"), hashlib.sha1(svg.encode()).hexdigest()))
                else:
                    for i in chosen:
                        want += [(W, H, COLOURS[c]) for c in spec["slides"][i]["colours"]] if slides[i] else [os.path.join(work, "raw%d.pdf" % spec["slides"][i]["pdf"])]
                if r["prune"] is not None:
                    args["prune_cache"] = r["prune"]
                labels.add(r["kind"] if r["kind"] != "pdf" else str(r["merger"]))
                if r["kind"] == "pdf" and r["merger"] is not None:
                    out = r["name"] if r["relative"] else os.path.join(work, r["name"])
                    if r["existing"]:
                        with open(out, "wb") as f:
                            f.write(b"old " * 5000)
                    res = deck.render(out, pdf_merger=r["merger"], **args)
                    require(res is None, "render() returned %r", res)
                    out = os.path.join(work, r["name"])
                    require(os.path.isfile(out), "no document was written")
                    pages = []
                    for w in want:
                        if isinstance(w, str):
                            i = int(w[-5])
                            for k in range(RAW_PAGES[i]):
                                pages.append((100 + 10 * i, 50 + 10 * k, "raw-%d-%d" % (i, k) if ink else raw_colour(i, k)))
                        else:
                            pages.append((w[0] * 0.75, w[1] * 0.75, w[2]))
                    got = pages_of(out)
                    require(len(got) == len(pages), "the document has %d pages, expected %d", len(got), len(pages))
                    for k, ((w, h, stamps), (mw, mh, stamp)) in enumerate(zip(got, pages)):
                        require(abs(w - mw) < 0.01 and abs(h - mh) < 0.01, "page %d has size %r, expected %r", k + 1, (w, h), (mw, mh))
                        if ink:
                            require(stamps == [stamp.encode()], "page %d holds %r, expected %r", k + 1, stamps, stamp)
                    if not ink:
                        pics = pictures(out, env)
                        require(len(pics) == len(pages), "%d pages are shown, expected %d", len(pics), len(pages))
                        for k, (im, p) in enumerate(zip(pics, pages)):
                            for at in ((0.1, 0.1), (0.5, 0.5), (0.9, 0.9)):
                                px = im.getpixel((int(im.size[0] * at[0]), int(im.size[1] * at[1])))
                                require(near(px, p[2]), "page %d has colour %r at %r, expected %r", k + 1, px, at, p[2])
                    if len(pages) >= 3:
                        labels.add("nontrivial")
                    continue
                if r["kind"] in ("pdf", "list"):
                    res = deck.render(r["name"], pdf_merger=None, **args)
                    kind = "pdf"
                else:
                    kind = r["kind"]
                    res = deck.render(r["name"], export_type=kind, **args)
                require(isinstance(res, list) and len(res) == len(want), "render() returned %r for %d pages", res, len(want))
                for k, (path, w) in enumerate(zip(res, want)):
                    require(os.path.isfile(path), "file %d does not exist: %r", k + 1, path)
                    if isinstance(w, str):
                        require(os.path.realpath(path) == os.path.realpath(w), "file %d is %r instead of the raw PDF", k + 1, path)
                        continue
                    require(path.endswith("." + kind), "file %d of type %s is %r", k + 1, kind, path)
                    if kind == "pdf":
                        (page,) = pages_of(path)
                        require(abs(page[0] - w[0] * 0.75) < 0.01 and abs(page[1] - w[1] * 0.75) < 0.01, "file %d has size %r", k + 1, page[:2])
                        if ink:
                            require(page[2] == [w[2].encode()], "file %d holds %r, expected %r", k + 1, page[2], w[2])
                        elif k < 4:
                            (im,) = pictures(path, env)
                            px = im.getpixel((im.size[0] // 2, im.size[1] // 2))
                            require(near(px, w[2]), "file %d has colour %r, expected %r", k + 1, px, w[2])
                    elif kind == "png":
                        im = Image.open(path)
                        require(im.format == "PNG", "file %d is %s", k + 1, im.format)
                        if ink:
                            d = b"".join(bytes(p[:3]) for p in im.convert("RGB").getdata())[:20].hex()
                            require(d == w[2], "file %d holds %r, expected %r", k + 1, d, w[2])
                        else:
                            require(im.size == (W, H), "file %d has size %r", k + 1, im.size)
                            for px in (im.getpixel((2, 2)), im.getpixel((W // 2, H // 2)), im.getpixel((W - 3, H - 3))):
                                require(px[:3] == w[2] and (len(px) == 3 or px[3] == 255), "file %d has colour %r, expected %r", k + 1, px, w[2])
                    else:
                        with open(path) as f:
                            text = f.read()
                        require(text == "<!-- %s %s -->" % (kind, w[2]), "file %d holds %r, expected %s of %r", k + 1, text[:80], kind, w[2])
                if len(res) >= 3:
                    labels.add("nontrivial")
        expect_reject("an unknown merger", lambda: deck.render("x.pdf", pdf_merger="nosuch"))
    finally:
        os.chdir(old)
        env.drop(work)
    return sorted(labels)


@st.composite
def many_strategy(draw, tier):
    return {"backend": draw(st.sampled_from(["ink", "ink", "cairo"])), "slides": draw(st.lists(st.sampled_from([1, 1, 2, 5]), min_size=1, max_size=40)), "merger": "pypdf",
            "files": draw(st.integers(12, 20)), "runs": draw(st.integers(1, 3)), "units": draw(st.booleans())}


def many(spec, env):
    """Documents of more pages than a process may have files open."""
    import resource

    work = env.fresh_dir("many")
    pages = sum(spec["slides"])

    def program(out, slides):
        deck = sut.make_deck(env, cache_dir=os.path.join(work, "cache"), backend="cairo" if spec["backend"] == "cairo" else None, width=100, height=80)
        for i, steps in enumerate(slides):
            box = deck.new_slide()
            for k in range(steps):
                box.box(x=0, y=0, width="100%", height="100%", show=str(k + 1)).rect(bg_color="#%02x%02x%02x" % COLOURS[(i + k) % len(COLOURS)])
        if spec["units"]:
            sut.render_units(deck)
        deck.render(out, pdf_merger=spec["merger"])

    def limited():
        program(os.path.join(work, "first.pdf"), [1, 1])
        top = max(int(n) for n in os.listdir("/proc/self/fd"))
        resource.setrlimit(resource.RLIMIT_NOFILE, (top + spec["files"], top + spec["files"]))
        for k in range(spec["runs"]):
            program(os.path.join(work, "out%d.pdf" % k), spec["slides"])
        return True

    try:
        with judged("writing a document of many pages"):
            forked.must(forked.run(limited), "writing %d documents of %d pages with %d files that can be open" % (spec["runs"], pages, spec["files"]))
            for k in range(spec["runs"]):
                got = pages_of(os.path.join(work, "out%d.pdf" % k))
                require(len(got) == pages, "the document has %d pages, expected %d", len(got), pages)
    finally:
        env.drop(work)
    return [spec["backend"], "many pages"] + (["nontrivial"] if pages >= spec["files"] else [])


SUITES = {
    "broken": {"strategy": broken_strategy, "check": broken, "share": 0.07},
    "many": {"strategy": many_strategy, "check": many, "share": 0.08},
    "inkscape": {"strategy": lambda tier: deck("ink", tier), "check": check, "share": 0.6},
    "cairo": {"strategy": lambda tier: deck("cairo", tier), "check": check, "share": 0.25},
}
CASES = {"quick": 3200, "thorough": 16000}
