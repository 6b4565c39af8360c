"""C36: files are found and read as they are when the program names them."""
import base64
import io
import os
import zipfile

from hypothesis import strategies as st

from vlib import decks, ink, sut
from vlib.core import expect_reject, judged, require

ID = "C36"
RULE = ("histories of 2-30 actions: writing (also with the old modification time and length), renaming and deleting SVG, PNG, JPEG and OpenRaster files of the same names in two directories, changing the working directory, adding images by "
        "absolute and relative names, streams and bytes to slides of two decks, adding raw PDFs by relative names, rendering and exporting with relative cache directories and outputs; each page is compared with the contents the files had "
        "when they were added; non-trivial: an image was added from a file that was changed, renamed or named differently since another image was added")
ASSUMPTIONS = ["a raw PDF is read when the document is written"]
CASES = {"quick": 4000, "thorough": 40000}

KINDS = ("svg", "png", "jpeg", "ora")
EXT = {"svg": [".svg"], "png": [".png"], "jpeg": [".jpg", ".jpeg"], "ora": [".ora"]}
NAMES = ["a.svg", "a.png", "a.ora", "b.svg", "b.png", "a.jpg", "b.jpeg", "b.ora"]
KIND = st.sampled_from(["image", "image", "image", "fresh", "fresh", "fresh", "other", "other", "write", "chdir", "chdir", "rename", "delete", "render", "render", "pdf"])


@st.composite
def strategy_(draw, tier):
    coin = st.sampled_from([False, True])
    spec = {"one_cache": draw(coin), "start": draw(st.integers(0, 1)), "same_time": draw(coin), "actions": []}
    # histories are about few files
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True))
    file = st.tuples(st.integers(0, 1), st.sampled_from(names)).map(list)
    variant = st.integers(0, 5)
    spec["files"] = [[[d, n], draw(variant)] for d in (0, 1) for n in names if draw(st.sampled_from([True] * 5 + [False]))]
    last = draw(file)
    out = spec["actions"]

    def image(f):
        out.append({"t": "image", "file": f, "how": draw(st.sampled_from(["abs", "abs", "rel", "rel", "rel", "dot", "other way", "stream", "bytes"])), "deck": draw(st.sampled_from([0, 0, 1])), "new": draw(coin),
                    "twice": draw(st.sampled_from([False, False, True]))})

    def write(f):
        out.append({"t": "write", "file": f, "v": draw(variant), "keep": draw(coin), "replace": draw(coin)})

    for _ in range(draw(st.sampled_from([2, 4, 7, 10] + ([20] if tier != "quick" else [])))):
        t = draw(KIND)
        if t == "image":
            last = draw(file)
            image(last)
        elif t == "fresh":  # the file changes between two images
            image(last)
            write(last)
            image(last)
        elif t == "other":  # the same name in the other directory
            for d in (last[0], 1 - last[0]):
                if draw(st.sampled_from([True, True, False])):
                    out.append({"t": "chdir", "d": d})
                image([d, last[1]])
        elif t == "write":
            write(draw(file))
        elif t == "chdir":
            out.append({"t": t, "d": draw(st.integers(0, 1))})
        elif t == "rename":
            out.append({"t": t, "file": last, "to": draw(st.integers(0, 1)), "letter": draw(st.sampled_from("ab"))})
        elif t == "delete":
            out.append({"t": t, "file": draw(file)})
        elif t == "render":
            out.append({"t": t, "deck": draw(st.sampled_from([0, 0, 1])), "kind": draw(st.sampled_from(["units", "png", "pdf", "document"]))})
        else:
            out.append({"t": t, "deck": draw(st.integers(0, 1)), "how": draw(st.sampled_from(["abs", "rel"]))})
    return spec


def strategy(tier):
    return strategy_(tier)


def colour(v, k=0):
    return "#%02x40%02x" % (16 + v * 30, 30 + k * 60)


def size(v):
    return (20 + 7 * (v % 3), 20 + 5 * (v // 3))


def content(kind, v):
    """The bytes of a file."""
    from PIL import Image

    w, h = size(v)
    if kind == "svg":
        more = "<!--same length-->" + " " * 76 if not v % 2 else "<rect inkscape:label='**2+**' width='3' height='3' style='fill:%s'/>" % colour(v, 1)
        return ("<svg xmlns='http://www.w3.org/2000/svg' xmlns:inkscape='http://www.inkscape.org/namespaces/inkscape' width='%d' height='%d'><rect width='%d' height='%d' style='fill:%s'/>%s</svg>" % (
            w, h, w, h, colour(v), more)).encode()
    im = Image.new("RGB", (w, h), colour(v))
    f = io.BytesIO()
    im.save(f, "JPEG" if kind == "jpeg" else "PNG")
    if kind != "ora":
        return f.getvalue()
    z = io.BytesIO()
    with zipfile.ZipFile(z, "w") as a:
        a.writestr(zipfile.ZipInfo("mimetype"), "image/openraster")
        a.writestr(zipfile.ZipInfo("stack.xml"), "<image w='%d' h='%d'><stack><layer name='l' src='data/1.png'/></stack></image>" % (w, h))
        a.writestr(zipfile.ZipInfo("data/1.png"), f.getvalue())
    # all variants have the same length
    data = z.getvalue()
    z = io.BytesIO(data)
    with zipfile.ZipFile(z, "a") as a:
        a.comment = b"." * (3000 - len(data))
    return z.getvalue()


def kind_of(name):
    return {"svg": "svg", "png": "png", "jpg": "jpeg", "jpeg": "jpeg", "ora": "ora"}[name.split(".")[-1]]


def signature(kind, v, step):
    """What is drawn of an image."""
    w, h = size(v)
    if kind == "svg":
        return [("rect", colour(v))] + ([("rect", colour(v, 1))] if v % 2 and step >= 2 else [])
    if kind == "ora":
        return [("pixels", decks.rgb_of(colour(v)), (w, h))]
    return [("data", content(kind, v))]


def steps(images):
    return max([2 if k == "svg" and v % 2 else 1 for k, v in images], default=1)


def drawn(root):
    """[(size of the mark, signature)] of the images."""
    from PIL import Image

    out = []
    for e in root.iter():
        if sut.local(e) == "rect":
            fill = sut.style_of(e).get("fill") or e.get("fill")
            if fill == "#010203":
                out.append((tuple(round(x, 4) for x in sut.rect_of(e)[2:]), []))
            else:
                out[-1][1].append(("rect", fill))
        elif sut.local(e) == "image":
            href = e.get(sut.XLINK + "href") or e.get("href")
            data = base64.b64decode(href.split(",", 1)[1])
            out[-1][1].append(("image", data))
    for _, sig in out:
        for i, (what, data) in enumerate(sig):
            if what == "image":
                im = Image.open(io.BytesIO(data)).convert("RGB")
                sig[i] = (data, ("pixels", im.getpixel((0, 0)), im.size))
    return out


def matches(got, want):
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if w[0] == "rect":
            if g != w:
                return False
        elif g[0] == "rect" or (g[0] != w[1] if w[0] == "data" else g[1] != w):
            return False
    return True


def describe(sig):
    return [s if s[0] == "rect" else s[1] if isinstance(s[0], bytes) else s if s[0] == "pixels" else ("data", len(s[1])) for s in sig]


def check(spec, env):
    old = os.getcwd()
    d = env.fresh_dir("files")
    try:
        with judged("a history of files"):
            return history(spec, env, d)
    finally:
        os.chdir(old)
        env.drop(d)


def history(spec, env, d):
    import elsie
    from elsie.render.backends import InkscapeBackend

    labels = set()
    dirs = [os.path.join(d, "x"), os.path.join(d, "y")]
    for p in dirs:
        os.makedirs(p)
    now = {}  # (directory, name) -> variant
    clock = [10 ** 9]

    def path(f):
        return os.path.join(dirs[f[0]], f[1])

    def write(f, v, keep=False, replace=False):
        p = path(f)
        stat = os.stat(p) if os.path.isfile(p) else None
        to = p + ".new" if replace else p
        with open(to, "wb") as o:
            o.write(content(kind_of(f[1]), v))
        if replace:
            os.replace(to, p)
        clock[0] += 0 if spec.get("same_time") else 10
        t = stat.st_mtime_ns if keep and stat else clock[0] * 10 ** 9
        os.utime(p, ns=(t, t))
        now[tuple(f)] = v

    for f, v in spec["files"]:
        write(f, v)
    cwd = [spec["start"]]
    os.chdir(dirs[cwd[0]])
    made, caches = [], []
    for i in range(2):
        name = "cache" if spec["one_cache"] else "cache%d" % i
        caches.append(os.path.join(dirs[cwd[0]], name))
        made.append(elsie.SlideDeck(640, 480, backend=InkscapeBackend(inkscape=sut.shell(env), cache_dir=name), cache_dir=name, name_policy="ignore"))
    slides = [[], []]  # [(root box, [(kind, variant)])] or path of a raw PDF
    seen = {}  # file -> how it was when an image was added last
    reused = 0

    def compare(i, units, what):
        want = []
        for s, entry in enumerate(slides[i]):
            if isinstance(entry, str):
                want.append((s, entry, None))
            else:
                want += [(s, entry, step) for step in range(1, steps(entry[1]) + 1)]
        require(len(units) == len(want), "%s of deck %d has %d pages, expected %d", what, i, len(units), len(want))
        for u, (s, entry, step) in zip(units, want):
            if step is None:
                require(u.get_svg() is None, "a raw PDF has a drawing")
                continue
            got = drawn(sut.parse_svg(u.get_svg()))
            require(len(got) == len(entry[1]), "%d images on slide %d, expected %d", len(got), s, len(entry[1]))
            for k, ((wh, sig), (kind, v)) in enumerate(zip(got, entry[1])):
                w = signature(kind, v, step)
                require(matches(sig, w), "image %d (%s) of slide %d of deck %d in fragment %d is %r, expected %r", k, kind, s, i, step, describe(sig), describe(w))
                require(wh == tuple(map(float, size(v))), "image %d (%s) of slide %d has the size %r, expected %r", k, kind, s, wh, size(v))

    for n, a in enumerate(spec["actions"]):
        t = a["t"]
        if t == "write":
            write(a["file"], a["v"], a["keep"], a["replace"])
        elif t == "delete":
            if tuple(a["file"]) in now:
                os.remove(path(a["file"]))
                del now[tuple(a["file"])]
        elif t == "rename":
            f = tuple(a["file"])
            to = (a["to"], a["letter"] + f[1][1:])
            if f in now and f != to:
                os.replace(path(f), path(to))
                now[to] = now.pop(f)
        elif t == "chdir":
            cwd[0] = a["d"]
            os.chdir(dirs[cwd[0]])
        elif t == "pdf":
            p = os.path.join(dirs[cwd[0]], "raw%d.pdf" % n)
            with open(p, "wb") as o:
                o.write(b"%PDF raw")
            made[a["deck"]].add_pdf(p if a["how"] == "abs" else os.path.basename(p))
            slides[a["deck"]].append(p)
        elif t == "image":
            f = tuple(a["file"])
            kind = kind_of(f[1])
            i = a["deck"]
            how = a["how"]
            if how in ("rel", "dot") and f[0] != cwd[0]:
                how = "other way"
            if kind in ("svg", "ora") and how in ("stream", "bytes"):
                how = "abs"
            rel = os.path.relpath(path(f))
            source = {"abs": path(f), "rel": rel, "dot": "./" + rel, "other way": os.path.join("..", "xy"[f[0]], f[1])}.get(how)
            kw = {}
            present = f in now
            if source is None:
                if not present:
                    continue
                with open(path(f), "rb") as o:
                    data = o.read()
                source = data if how == "bytes" else io.BytesIO(data)
                kw["image_type"] = kind
            labels.add(how)
            if not slides[i] or a["new"] or isinstance(slides[i][-1], str):
                slides[i].append((made[i].new_slide(), []))
            root, images = slides[i][-1]
            if not present:
                labels.add("missing")
                with open(os.devnull, "w"):
                    expect_reject("an image of a file that does not exist", lambda: root.box().image(source, **kw))
                continue
            for _ in range(2 if a["twice"] and how != "stream" else 1):
                b = root.box()
                b.rect(bg_color="#010203")
                b.image(source, **kw)
                images.append((kind, now[f]))
            key = f
            state = (now[f], how, cwd[0])
            if key in seen and seen[key][0] != now[f]:
                labels.add("changed")
                reused += 1
            if any(k != key and k[1] == key[1] and s[1] in ("rel", "dot") and how in ("rel", "dot") for k, s in seen.items()):
                labels.add("same relative name")
                reused += 1
            seen[key] = state
        elif t == "render":
            i = a["deck"]
            if not slides[i]:
                continue
            deck = made[i]
            raw = any(isinstance(e, str) for e in slides[i])
            if a["kind"] == "units" or raw and a["kind"] in ("png", "document"):
                compare(i, deck.render(None, return_units=True), "rendering")
                continue
            units = deck.render(None, return_units=True)
            if a["kind"] == "document":
                deck.render("out%d.pdf" % n)
                require(os.path.isfile(os.path.join(dirs[cwd[0]], "out%d.pdf" % n)), "the document is not in the working directory")
                labels.add("document")
                continue
            files = deck.render(None, export_type=a["kind"], pdf_merger=None)
            require(len(files) == len(units), "%d files are exported, expected %d", len(files), len(units))
            raws = [e for e in slides[i] if isinstance(e, str)]
            for name, u in zip(files, units):
                if u.get_svg() is None:
                    require(os.path.join(os.getcwd(), name) == raws[0], "the raw PDF %s is used, expected %s", name, raws[0])
                    del raws[0]
                    continue
                full = os.path.join(os.getcwd(), name)
                require(os.path.isfile(full), "the exported file %s does not exist", name)
                require(os.path.dirname(os.path.realpath(full)) == os.path.realpath(caches[i]), "%s is not in the cache directory %s", name, caches[i])
            labels.add("export")
    for i in range(2):
        if slides[i]:
            compare(i, made[i].render(None, return_units=True), "the last rendering")
    if reused:
        labels.add("nontrivial")
    return sorted(labels)
