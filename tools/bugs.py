"""Planted bugs (see plant.py); each changes only lines of the original repository."""

BUGS = []


def bug(**kwargs):
    BUGS.append(kwargs)


bug(
    id="c01-ratio-smaller-than-content", property="C01",
    file="elsie/boxtree/layout.py",
    old="free -= max(rq.min_size, rq.ratio * rect_size)",
    new="free -= rq.ratio * rect_size",
    needs="a managed child with a percentage size whose content is bigger than the percentage, and a sibling that fills or a centred row",
    breaks="The free space is computed from the percentage and not from the size the child really has, so 'fill' siblings overlap or overflow.",
    demo='''
s = new_deck().new_slide()
root = s.box(x=0, y=0, width=400, height=100)
a = root.box(width=10, height="10%")
a.box(width=10, height=60)
b = root.box(width=10, height="fill")
b.rect(color="black")
r = els(pages(s.slide.slides)[0], "rect")[0]
expect("height of the box that fills the rest", num(r, "height"), 40.0)
''')

bug(
    id="c02-lazy-memo", property="C02",
    edits=[("elsie/boxtree/lazy.py", "        self.fn = fn\n", "        self.fn = fn\n        self.value = None\n"),
           ("elsie/boxtree/lazy.py", "        return self.fn()\n",
            "        if self.value is None:\n            self.value = self.fn()\n        return self.value\n")],
    needs="a deck that is rendered, extended so that boxes move, and rendered again",
    breaks="Dynamic coordinates keep the value of the first layout.",
    demo='''
d = new_deck()
s = d.new_slide()
a = s.box(width=100, height=100)
s.line([a.p(0, 0), a.p("100%", "100%")])
pages(d)
s.box(width=100, height=200, prepend=True)
r = pages(d)[0]
expect("line", els(r, "polyline")[0].get("points"), "462.0,434.0 562.0,534.0")
''')

bug(
    id="c03-bottom-padding", property="C03",
    file="elsie/boxtree/layout.py",
    old="height + self.p_top + self.p_bottom)",
    new="height + 2 * self.p_top)",
    needs="a box with a different top and bottom padding and with a text or an image right in it",
    breaks="The minimal height of such a box is computed as if both paddings were the same.",
    demo='''
d = new_deck()
s = d.new_slide()
s.box(p_top=5, p_bottom=45, name="x").text("A")
b = s.box(width=10, height=10).rect(color="red")
r = els(pages(d)[0], "rect")[0]
h = 28 * 1.2 + 50
expect("y of the next box", round(num(r, "y"), 3), round((768 - h - 10) / 2 + h, 3))
''')

bug(
    id="c06-fewer-image-steps", property="C06",
    file="elsie/slides/show.py",
    old="        min_steps = max(self._min_steps, steps)\n",
    new="        min_steps = steps\n",
    needs="a box with a fragment selector that has an image with fewer fragments than the selector names",
    breaks="The slide loses fragments: the image lowers the number of fragments its box asked for.",
    demo='''
p = path("a.svg", "<svg xmlns='http://www.w3.org/2000/svg' width='10' height='10'><rect width='5' height='5'/></svg>")
d = new_deck()
s = d.new_slide()
s.box(show="3").image(p)
expect("fragments", len(pages(d)), 3)
''')

bug(
    id="c08-explicit-zero", property="C08",
    file="elsie/boxtree/boxmixin.py",
    old="        if z_level is None:\n",
    new="        if not z_level:\n",
    needs="a box with z_level=0 in a box with another z_level",
    breaks="An explicit z_level 0 is replaced by the one of the parent.",
    demo='''
d = new_deck()
s = d.new_slide()
a = s.box(z_level=2, width=10, height=10)
a.rect(bg_color="red")
a.box(z_level=0, width=10, height=10).rect(bg_color="green")
s.box(width=10, height=10, z_level=1).rect(bg_color="blue")
expect("order", [e.get("style")[5:].split(";")[0] for e in els(pages(d)[0], "rect")], ["green", "blue", "red"])
''')

bug(
    id="c10-update-shared", property="C10",
    file="elsie/text/stylecontainer.py",
    old="        old_style.update(style)\n        self._styles = self._styles.copy()\n",
    new="        old_style.update(style)\n",
    needs="update_style in a box whose parent, siblings or children share its styles",
    breaks="update_style in one box changes the style in the boxes that share the dictionary.",
    demo='''
d = new_deck()
s = d.new_slide()
a, b = s.box(), s.box()
a.update_style("emph", elsie.TextStyle(color="red"))
expect("color of emph in the other box", b.get_style("emph").color, None)
expect("color of emph in the parent", s.get_style("emph").color, None)
''')

bug(
    id="c11-false-does-not-override", property="C11",
    file="elsie/text/textstyle.py",
    old="            if value is not None:\n                setattr(self, slot, value)",
    new="            if value or value == 0 and slot != \"_bold\":\n                setattr(self, slot, value)",
    needs="a style with bold=False composed over a bold one",
    breaks="bold=False in a style is taken as unset.",
    demo='''
T = elsie.TextStyle
expect("bold", T(bold=True).compose(T(bold=False)).bold, False)
''')

bug(
    id="c16-escaped-once", property="C16",
    edits=[("elsie/utils/sxml.py", "class Xml:\n", "import re\n\n\nclass Xml:\n"),
           ("elsie/utils/sxml.py", "    text = text.replace(\"&\", \"&amp;\")\n",
            "    text = re.sub(r\"&(?!(?:amp|lt|gt);)\", \"&amp;\", text)\n")],
    needs="a text that contains an XML entity itself, for example '&lt;'",
    breaks="Text that looks like an XML entity is drawn as the character it names.",
    demo='''
d = new_deck()
d.new_slide().text("&lt;b&gt;")
text = "".join(els(pages(d)[0], "text")[0].itertext())
expect("text", text, "&lt;b&gt;")
''')

bug(
    id="c12-rotate-scaled", property="C12",
    file="elsie/render/backends/svg/rcontext.py",
    old="        if scale:\n            transforms.append(f\"scale({scale})\")\n",
    new="        if scale:\n            transforms.insert(0, f\"scale({scale})\")\n",
    needs="a text that is both scaled to fit and rotated",
    breaks="The rotation is made around a scaled centre, so the text leaves its box.",
    demo='''
import math, re
d = new_deck()
s = d.new_slide()
s.box(x=100, y=100, width=200, height=100).text("abc", scale_to_fit=True, rotation=90)
t = els(pages(d)[0], "text")[0]
x, y = num(t, "x"), num(t, "y")
for name, args in reversed(re.findall(r"(\\w+)\\(([^)]*)\\)", t.get("transform"))):
    a = [float(v) for v in re.split("[ ,]+", args)]
    if name == "scale":
        x, y = x * a[0], y * a[0]
    else:
        r = math.radians(a[0])
        dx, dy = x - a[1], y - a[2]
        x, y = a[1] + dx * math.cos(r) - dy * math.sin(r), a[2] + dx * math.sin(r) + dy * math.cos(r)
if not (90 < y < 310 and 90 < x < 310):
    sys.exit("anchor of the text is at %r, %r" % (x, y))
''')

bug(
    id="c17-centroid", property="C17",
    file="elsie/utils/geom.py",
    old="    xs = sum([p[0] for p in points])\n    ys = sum([p[1] for p in points])\n    return (xs / len(points), ys / len(points))",
    new="    xs = [p[0] for p in points]\n    ys = [p[1] for p in points]\n    return ((min(xs) + max(xs)) / 2, (min(ys) + max(ys)) / 2)",
    needs="a rotated polygon that is not symmetric",
    breaks="Polygons are rotated around the middle of their bounding box and not around their centroid.",
    demo='''
d = new_deck()
s = d.new_slide()
s.polygon([(0, 0), (100, 0), (0, 100), (0, 50)], color="red", rotation=30)
expect("transform", els(pages(d)[0], "polygon")[0].get("transform"), "rotate(30 25.0 37.5)")
''')

bug(
    id="c18-both-arrows", property="C18",
    file="elsie/boxtree/boxmixin.py",
    old="                p2[-1] = end_arrow.move_end_point(p[-2], p[-1])\n",
    new="                p2[-1] = end_arrow.move_end_point(p2[-2], p2[-1])\n",
    needs="a line of two points with both arrows that is shorter than the shift of the start arrow",
    breaks="The end of the line is moved in the wrong direction, it sticks out of the end arrow.",
    demo='''
d = new_deck()
s = d.new_slide()
a = elsie.Arrow(size=100, angle=0)
b = elsie.Arrow(size=10, angle=0)
s.line([(100, 100), (120, 100)], start_arrow=a, end_arrow=b)
pts = [tuple(float(v) for v in p.split(",")) for p in els(pages(d)[0], "polyline")[0].get("points").split()]
expect("end of the line", round(pts[1][0], 3), 115.0)
''')

bug(
    id="c20-selected-none", property="C20",
    file="elsie/boxtree/boxmixin.py",
    old="                    if step is None:\n                        return\n",
    new="                    if step is None:\n                        step = ctx.step\n",
    needs="select_fragments with a None entry",
    breaks="Fragments that should show nothing of the image show its fragment with the number of the slide fragment.",
    demo='''
p = path("a.svg", "<svg xmlns='http://www.w3.org/2000/svg' width='10' height='10' xmlns:inkscape='http://www.inkscape.org/namespaces/inkscape'><circle r='5' inkscape:label='a **2+'/></svg>")
d = new_deck()
d.new_slide().image(p, select_fragments=[2, None])
expect("circles", [len(els(r, "circle")) for r in pages(d)], [1, 0])
''')

bug(
    id="c21-group-offset", property="C21",
    file="elsie/render/ora.py",
    old="    if x != \"0\" or y != \"0\":\n",
    new="    if x != \"0\" and y != \"0\":\n",
    needs="a group of layers that is moved along one axis only",
    breaks="Layers in a group with an offset in one axis are drawn without the offset.",
    demo='''
import io, zipfile
from PIL import Image
img = io.BytesIO()
Image.new("RGBA", (4, 4), (255, 0, 0, 255)).save(img, "png")
p = os.path.join(work, "a.ora")
with zipfile.ZipFile(p, "w") as z:
    z.writestr("mimetype", "image/openraster")
    z.writestr("stack.xml", "<image w='20' h='20'><stack><stack x='7' y='0' name='g'><layer src='a.png' name='l' x='1' y='2'/></stack></stack></image>")
    z.writestr("a.png", img.getvalue())
d = new_deck()
d.new_slide().image(p)
image = els(pages(d)[0], "image")[0]
transforms = [g.get("transform") for g in image.iterancestors()]
expect("offset of the group", any(t and "translate(7" in t for t in transforms), True)
''')

bug(
    id="c23-same-page-twice", property="C23",
    file="elsie/render/pdfmerge.py",
    old="    def append(self, filename):\n        self.filenames.append(filename)\n",
    new="    def append(self, filename):\n        if filename not in self.filenames:\n            self.filenames.append(filename)\n",
    needs="two fragments or slides that look the same and pdfunite as the merger",
    breaks="Pages that look the same as an earlier one are missing in the document.",
    demo='''
from elsie.render.pdfmerge import get_pdf_merger_by_name
m = get_pdf_merger_by_name("pdfunite")
import subprocess
calls = []
subprocess.check_call = lambda args, **kw: calls.append(list(args))
for name in ("a.pdf", "b.pdf", "a.pdf"):
    m.append(name)
m.write("out.pdf", False)
expect("command", calls, [["pdfunite", "a.pdf", "b.pdf", "a.pdf", "out.pdf"]])
''')

bug(
    id="c24-rejected-slide", property="C24",
    edits=[("elsie/slides/slidedeck.py",
            "        self._apply_name_policy(name)\n\n        slide = Slide(", "        slide = Slide("),
           ("elsie/slides/slidedeck.py",
            "        if view_box is not None and not (\n            isinstance(view_box, tuple)",
            "        self._apply_name_policy(name)\n\n        if view_box is not None and not (\n            isinstance(view_box, tuple)")],
    needs="name policy 'replace' and a slide that is rejected (wrong view_box) with the name of an existing one",
    breaks="The existing slide is lost although the new one was rejected.",
    demo='''
d = new_deck(name_policy="replace")
d.new_slide("a")
try:
    d.new_slide("a", view_box=(1, 2, 3))
except Exception:
    pass
expect("slide is there", d.get_slide_by_name("a") is not None, True)
''')

bug(
    id="c25-version-in-key", property="C25",
    file="elsie/utils/cache.py",
    old="        self.hasher.update(start)\n",
    new="        start.strip()\n",
    needs="a cache directory used by two versions of Elsie or of Inkscape",
    breaks="Output made by another version is served from the cache.",
    demo='''
from elsie.utils.cache import FsCache
made = []
def constructor(data, target, data_type):
    made.append(target)
    with open(target, "wb") as f:
        f.write(data)
for version in ("1", "2"):
    FsCache(work, version).ensure(b"x", "pdf", constructor)
expect("files made", len(made), 2)
''')

bug(
    id="c29-nested-start", property="C29",
    file="elsie/ext/markdown.py",
    old="            new_list = ctx.active_list.ol(start=list_node.start, level=())\n",
    new="            new_list = ctx.active_list.ol(start=list_node.start or 1, level=())\n",
    needs="a nested ordered list that starts with 0",
    breaks="Such a list is numbered from 1.",
    demo='''
from elsie.ext import markdown
d = new_deck()
s = d.new_slide()
markdown(s, "* a\\n\\n  0. b\\n  1. c\\n")
texts = ["".join(t.itertext()) for t in els(pages(d)[-1], "text")]
expect("zero is a label", "0." in texts, True)
''')

bug(
    id="c30-two-fragments", property="C30",
    file="elsie/render/jupyter.py",
    old="    if (new_step >= 1 && new_step <= max_step) {\n",
    new="    if (new_step >= 1 && new_step < max_step || offset > 1) {\n",
    needs="clicking to the last fragment in the notebook view",
    breaks="The last fragment cannot be reached with the buttons.",
    demo='''
import subprocess
from elsie.render import jupyter
js = jupyter.get_javascript(2, "x")
js = js[js.index(">") + 1 : js.rindex("<")]
driver = """
var made = {};
var document = {
  querySelector: function (s) { if (!made[s]) made[s] = {style: {}, addEventListener: function (e, f) { this.click = f; }}; return made[s]; },
  querySelectorAll: function (s) { return []; }
};
%s;
made[".x .elsie-next"].click();
console.log(made[".x .elsie-current-step"].innerText);
""" % js
out = subprocess.check_output(["node", "-e", driver], universal_newlines=True).strip()
expect("text after a click", out, "Fragment: 2")
''')

bug(
    id="c31-smooth-after-cubic", property="C31",
    file="elsie/render/backends/cairo/shapes.py",
    old="            cp = reflect(last_cubic_cp or location, location)\n            last_cubic_cp = args[0]\n            last_quadratic_cp = None\n",
    new="            cp = reflect(last_cubic_cp or location, location)\n            last_cubic_cp = args[0]\n",
    needs="a path where T follows S which follows Q",
    breaks="The control point of the last quadratic curve survives a cubic one, so T is drawn with a wrong curvature.",
    demo='''
from elsie.render.backends.cairo.shapes import draw_path


class Ctx:
    def __init__(self):
        self.p, self.out = (0, 0), []

    def get_current_point(self):
        return self.p

    def move_to(self, x, y):
        self.p = (x, y)

    line_to = move_to

    def curve_to(self, a, b, c, d, x, y):
        self.out.append((a, b, c, d, x, y))
        self.p = (x, y)


ctx = Ctx()
draw_path(ctx, [("M", [(0, 0)]), ("Q", [(0, 9), (9, 9)]), ("S", [(20, 20), (30, 30)]), ("T", [(60, 30)])])
expect("last curve", tuple(round(v, 6) for v in ctx.out[-1]), (30, 30, 40, 30, 60, 30))
''')

bug(
    id="c34-short-suffix", property="C34",
    file="elsie/ext/latex.py",
    old="    h.update(text.encode())\n",
    new="    h.update(text.encode()[:400])\n",
    needs="two snippets that differ only behind the first 400 bytes of the source",
    breaks="Identifiers in different snippets are the same, one snippet is drawn with glyphs of the other one.",
    demo='''
from elsie.ext import latex as module
import elsie.ext.latex as m


class Popen:
    returncode = 0

    def __init__(self, args, cwd=None, **kwargs):
        if "pdf2svg" in args[0]:
            with open(args[2], "w") as f:
                f.write("<svg xmlns='http://www.w3.org/2000/svg' width='9pt' height='9pt'><g id='glyph'/></svg>")

    def communicate(self):
        return b"", b""


m.subprocess.Popen = Popen
d = new_deck()
s = d.new_slide()
m.latex(s.box(), "x" * 500 + "a")
m.latex(s.box(), "x" * 500 + "b")
ids = [e.get("id") for e in pages(d)[0].iter() if e.get("id")]
expect("different ids", len(set(ids)), 2)
''')

bug(
    id="c09-opacity-zero", property="C09",
    file="elsie/render/backends/svg/draw.py",
    old="    if style.opacity is not None:\n",
    new="    if style.opacity:\n",
    needs="an inline style with opacity 0",
    breaks="Text with opacity 0 is drawn opaque.",
    demo='''
d = new_deck()
s = d.new_slide()
s.set_style("ghost", elsie.TextStyle(opacity=0))
s.text("a~ghost{b}")
span = [e for e in els(pages(d)[0], "tspan") if e.text == "b"][0]
expect("style of b", span.get("style"), "fill-opacity:0;")
''')

bug(
    id="c13-newline-and-spaces", property="C13",
    file="elsie/text/highlight.py",
    old="            if value == \"\\n\":\n",
    new="            if value.strip(\" \") == \"\\n\":\n",
    needs="a language whose lexer returns a newline and the indentation behind it as one token",
    breaks="The indentation of lines is lost in such languages.",
    demo='''
d = new_deck()
s = d.new_slide()
s.code("json", '{\\n    "a": 1\\n}')
text = "".join(els(pages(d)[0], "text")[0].itertext()).replace("\\xa0", " ")
expect("code", text, '{    "a": 1}')
''')

bug(
    id="c14-prefix-of-name", property="C14",
    file="elsie/text/textboxitem.py",
    old="            if token[0] == \"begin\" and token[1] == style_name:\n",
    new="            if token[0] == \"begin\" and token[1].startswith(style_name):\n",
    needs="a text with two inline styles where the name of one is a prefix of the other",
    breaks="inline_box wraps a text of another style.",
    demo='''
d = new_deck()
s = d.new_slide()
t = s.text("~#ab{xxx}\\n~#a{y}")
t.inline_box("#a").rect(color="red")
expect("width", num(els(pages(d)[0], "rect")[0], "width"), 10.0)
''')

bug(
    id="c28-sublist-arguments", property="C28",
    file="elsie/ext/list.py",
    old="        box, total_indent = self._create_box(self.parent, indent=indent, **box_args)\n        args = dict(self.box_args)\n",
    new="        box, total_indent = self._create_box(self.parent, indent=indent, **box_args)\n        args = self.box_args\n",
    needs="a sublist with its own box arguments and an item of the outer list after it",
    breaks="Box arguments of a sublist are also used for the items of the outer list that follow.",
    demo='''
from elsie.ext import unordered_list
d = new_deck()
s = d.new_slide()
l = unordered_list(s, show="1+")
l.item().text("x")
l.ul(show="3+").item().text("y")
l.item().text("z")
expect("z in the first fragment", "z" in "".join(pages(d)[0].itertext()), True)
''')

# second wave -----------------------------------------------------------------------------

bug(
    id="c04-reversed-range", property="C04",
    file="elsie/slides/show.py",
    old="                assert start <= end\n",
    new="                start, end = min(start, end), max(start, end)\n",
    needs="a selector whose range goes down, for instance next-2 after fragment 4",
    breaks="A selector that names no fragment is taken as a range in the opposite direction.",
    demo='''
d = new_deck()
s = d.new_slide()
try:
    s.box(show="5-2")
except Exception:
    sys.exit(0)
sys.exit("5-2 is accepted")
''')

bug(
    id="c04-align-without-bracket", property="C04",
    file="elsie/boxtree/value.py",
    old=r'''    parser = re.compile(r"^(?P<fix_pos>^\d+$)|^(?P<ratio>^\d+)%$|^\[(?P<align>\d+)%\]$")''',
    new=r'''    parser = re.compile(r"^(?P<fix_pos>^\d+$)|^(?P<ratio>^\d+)%$|^\[(?P<align>\d+)%?\]$")''',
    needs="an alignment without the percent sign",
    breaks="'[50]' is accepted as a position.",
    demo='''
d = new_deck()
s = d.new_slide()
try:
    s.box(x="[50]")
except Exception:
    sys.exit(0)
sys.exit("[50] is accepted")
''')

bug(
    id="c05-image-closes-selector", property="C05",
    file="elsie/slides/show.py",
    old="        return ShowInfo(self.steps, self.open_step, min_steps)\n",
    new="        return ShowInfo(self.steps, self.open_step if min_steps > steps else None, min_steps)\n",
    needs="a box that is shown from a fragment on and that has an image of at least so many fragments",
    breaks="The open end of the selector is lost, the content of the box disappears.",
    demo='''
p = path("a.svg", "<svg xmlns='http://www.w3.org/2000/svg' xmlns:inkscape='http://www.inkscape.org/namespaces/inkscape' width='10' height='10'><rect inkscape:label='**3' width='5' height='5'/></svg>")
d = new_deck()
s = d.new_slide()
b = s.box(show="2+")
b.ellipse(color="red")
b.image(p)
expect("fragments", [len(els(p, "ellipse")) for p in pages(d)], [0, 1, 1])
''')

bug(
    id="c07-late-image-without-space", property="C07",
    edits=[("elsie/boxtree/boxmixin.py",
            "        self._get_box().layout.set_image_size_request(\n            image_width * (scale or 1), image_height * (scale or 1)\n        )\n\n        if select_fragments is not None:\n",
            "        if show_begin < 3:\n            self._get_box().layout.set_image_size_request(\n                image_width * (scale or 1), image_height * (scale or 1)\n            )\n\n        if select_fragments is not None:\n")],
    needs="an SVG image that begins in the third fragment or later",
    breaks="The image takes no space, so the layout depends on the fragment in which it begins.",
    demo='''
p = path("a.svg", "<svg xmlns='http://www.w3.org/2000/svg' width='10' height='100'><circle r='5'/></svg>")
ys = []
for begin in (1, 3):
    d = new_deck()
    s = d.new_slide()
    s.box().image(p, show_begin=begin)
    s.box(width=10, height=10).rect(color="red")
    ys.append(num(els(pages(d)[0], "rect")[0], "y"))
expect("y of the next box", ys[0], ys[1])
''')

bug(
    id="c08-above-item", property="C08",
    file="elsie/boxtree/box.py",
    old="            self.children.insert(self.children.index(above) + 1, obj)\n",
    new="            self.children.insert(min(self.children.index(above) + 1, len(self._box_children) + 1), obj)\n",
    needs="an item that is put above a child behind which there are other children, in a box with more items than boxes",
    breaks="The new box is painted under items it should be above of.",
    demo='''
d = new_deck()
s = d.new_slide()
b = s.box(width=50, height=50)
b.rect(color="#000001")
b.rect(color="#000002")
i = b.rect(color="#000003")
b.rect(color="#000004")
b.box(above=i, width=9, height=9).rect(color="#000005")
order = [r.get("style").split("stroke:")[1][6] for r in els(pages(d)[0], "rect")]
expect("order", order, ["1", "2", "3", "5", "4"])
''')

bug(
    id="c15-last-fragment-in-place", property="C15",
    file="elsie/render/image.py",
    old="    root = deepcopy(root)\n    find_hidden_elements(root)\n",
    new="    if step < get_image_steps(root):\n        root = deepcopy(root)\n    find_hidden_elements(root)\n",
    needs="an SVG image with elements that are not in its last fragment, drawn twice in a deck or rendered twice",
    breaks="Elements hidden in the last fragment are removed from the shared tree, so they miss in every later use of the image.",
    demo='''
p = path("a.svg", "<svg xmlns='http://www.w3.org/2000/svg' xmlns:inkscape='http://www.inkscape.org/namespaces/inkscape' width='10' height='10'><rect inkscape:label='**1-2' width='5' height='5'/><rect inkscape:label='**3' width='5' height='5'/></svg>")
d = new_deck()
d.new_slide().image(p)
first = [len(els(p, "rect")) for p in pages(d)]
expect("rendered again", [len(els(p, "rect")) for p in pages(d)], first)
''')

bug(
    id="c19-padding-in-ratio", property="C19",
    file="elsie/boxtree/layout.py",
    old="        self.ensure_width(size_y * image_width / image_height)\n        self.ensure_height(size_x * image_height / image_width)\n",
    new="        self.ensure_width(size_y * image_width / image_height)\n        self.ensure_height(self._width.min_size * image_height / image_width)\n",
    needs="an image in a padded box with one dimension given",
    breaks="The padding is counted as a part of the image in the other dimension.",
    demo='''
p = path("a.svg", "<svg xmlns='http://www.w3.org/2000/svg' width='10' height='10'><circle r='5'/></svg>")
d = new_deck()
s = d.new_slide()
b = s.box(x=0, y=0, height=100, padding=20)
b.image(p)
b.rect(color="red")
r = els(pages(d)[0], "rect")[0]
expect("inner height", num(r, "height"), 60.0)
''')

bug(
    id="c20-begin-of-plain-image", property="C20",
    file="elsie/boxtree/boxmixin.py",
    old="                if ctx.step < show_begin:\n                    return\n",
    new="",
    needs="an image without fragments and with show_begin",
    breaks="The image is shown before the fragment in which it should begin.",
    demo='''
p = path("a.svg", "<svg xmlns='http://www.w3.org/2000/svg' width='10' height='10'><circle r='5'/></svg>")
d = new_deck()
d.new_slide().image(p, show_begin=2)
expect("circles", [len(els(p, "circle")) for p in pages(d)], [0, 1])
''')

bug(
    id="c22-selected-in-deck-order", property="C22",
    file="elsie/slides/slidedeck.py",
    old="        for slide in select_slides:\n            slide.prepare()\n",
    new="        for slide in sorted(select_slides, key=self._slides.index):\n            slide.prepare()\n",
    needs="select_slides in another order than the slides were made",
    breaks="The pages are in the order of the deck and not in the requested one.",
    demo='''
d = new_deck()
a = d.new_slide()
a.text("a")
b = d.new_slide()
b.text("b")
got = ["".join(p.itertext()) for p in pages(d, select_slides=[b.slide, a.slide])]
expect("pages", got, ["b", "a"])
''')

bug(
    id="c23-merger-inputs-once", property="C23",
    file="elsie/render/pdfmerge.py",
    old="                args += self.filenames\n",
    new="                args += dict.fromkeys(self.filenames)\n",
    needs="two equal pages merged by pdfunite",
    breaks="A page that looks as an earlier one is missing in the document.",
    demo='''
import subprocess
calls = []
from elsie.render import pdfmerge
pdfmerge.subprocess.check_call = lambda args, **kw: calls.append(args)
m = pdfmerge.get_pdf_merger_by_name("pdfunite")
for name in ("a", "b", "a"):
    m.append(name)
m.write("out", False)
expect("inputs", len(calls[0]), 5)
''')

bug(
    id="c24-empty-name", property="C24",
    file="elsie/slides/slidedeck.py",
    old="        if name is None:\n            if self.name_policy == \"unique\":\n                return\n",
    new="        if not name:\n            if self.name_policy == \"unique\":\n                return\n",
    needs="slides with an empty name under the policy 'unique'",
    breaks="Two slides of the same (empty) name are accepted.",
    demo='''
d = new_deck(name_policy="unique")
d.new_slide("")
try:
    d.new_slide("")
except Exception:
    sys.exit(0)
sys.exit("two slides of the same name")
''')

bug(
    id="c25-touched-late", property="C25",
    edits=[("elsie/utils/cache.py",
            "        cache_file = self._get_filename(input_data, data_type)\n        self.touched_files.add(cache_file)\n        full_path = os.path.join(self.cache_dir, cache_file)\n",
            "        cache_file = self._get_filename(input_data, data_type)\n        full_path = os.path.join(self.cache_dir, cache_file)\n"),
           ("elsie/utils/cache.py",
            "        result = constructor(input_data)\n",
            "        result = constructor(input_data)\n        self.touched_files.add(cache_file)\n")],
    needs="a deck with a LaTeX snippet that is rendered in three runs",
    breaks="A snippet taken from the cache is not marked as used, so every second run compiles it again.",
    demo='''
from elsie.utils.cache import FsCache
made = []
for i in range(3):
    c = FsCache(work, "1")
    c.get("x", "svg", lambda s: made.append(s) or s)
    c.remove_unused()
expect("times made", len(made), 1)
''')

bug(
    id="c26-measured-zero", property="C26",
    edits=[("elsie/render/inkscape.py",
            "            value = self.run_command(query)\n            try:\n                return float(value)\n",
            "            value = self.run_command(query)\n            try:\n                return float(value or 0)\n")],
    needs="an Inkscape that does not answer a query",
    breaks="The missing answer is taken as zero and stays in the cache, so the following runs are wrong.",
    demo='''
class Silent(Shell):
    def run_command(self, command):
        return ""

    run_query = InkscapeShell.run_query

    def get_width(self, svg, id):
        return self.run_query(svg, "query-width", id)


try:
    w = Silent().get_width("<svg/>", "x")
except Exception:
    sys.exit(0)
sys.exit("width is %r" % w)
''')

bug(
    id="c27-prompt-in-output", property="C27",
    file="elsie/render/inkscape.py",
    old="                character == \" \"\n                and chars\n                and chars[-1] == \">\"\n                and (len(chars) == 1 or chars[-2] == \"\\n\")\n",
    new="                character == \" \"\n                and chars\n                and chars[-1] == \">\"\n",
    needs="an Inkscape that prints '> ' within a line",
    breaks="Output that contains '> ' is taken for the prompt, all later answers are of earlier commands.",
    demo='''
fake = path("ink", """#!/opt/venv/bin/python
import sys
def out(s):
    sys.stdout.write(s)
    sys.stdout.flush()
out("> ")
for line in sys.stdin:
    if line.startswith("query"):
        out("note <g> in <svg> is empty\\\\n12.5\\\\n")
    out("> ")
""")
os.chmod(fake, 0o755)
sh = InkscapeShell(fake)
try:
    got = sh.get_width("<svg/>", "x")
finally:
    sh.process.kill()
expect("width", got, 12.5)
''')

bug(
    id="c28-own-indent", property="C28",
    file="elsie/ext/list.py",
    old="        indent = indent if indent is not None else self.default_indent\n",
    new="        indent = indent or self.default_indent\n",
    needs="a sublist with indent=0",
    breaks="A sublist that should not be indented is indented by the default.",
    demo='''
from elsie.ext import unordered_list
d = new_deck()
s = d.new_slide()
l = unordered_list(s, indent=30)
a = l.item().text("aaaa")
with l.ul(indent=0) as m:
    b = m.item().text("bbbb")
root = pages(d)[0]
xs = {"".join(t.itertext()): num(t, "x") for t in els(root, "text")}
expect("x", xs["bbbb"], xs["aaaa"])
''')

bug(
    id="c29-rest-of-link", property="C29",
    file="elsie/ext/markdown.py",
    old="            text += ctx.wrap_text_with_style(get_raw_text(ctx, child), MD_LINK_STYLE)\n",
    new="            label = child.children[0].children\n            label = label if isinstance(label, str) else get_raw_text(ctx, child)\n            text += ctx.wrap_text_with_style(label, MD_LINK_STYLE)\n",
    needs="a link whose text consists of several parts (plain and emphasised)",
    breaks="Only the first part of the link is drawn.",
    demo='''
from elsie.ext import markdown
d = new_deck()
s = d.new_slide()
markdown(s, "[a *b* c](http://x.y)")
text = "".join(els(pages(d)[-1], "text")[0].itertext()).replace("\\xa0", " ")
expect("text", text, "a b c")
''')

bug(
    id="c32-second-smooth-quadratic", property="C32",
    file="elsie/render/backends/cairo/shapes.py",
    old="            last_quadratic_cp = reflect(last_quadratic_cp or location, location)\n            draw_quadratic_bezier(ctx, location, args[0], last_quadratic_cp)\n",
    new="            cp = reflect(last_quadratic_cp or location, location)\n            last_quadratic_cp = None\n            draw_quadratic_bezier(ctx, location, args[0], cp)\n",
    needs="a path with two T commands in a row",
    breaks="The second of them is a straight line.",
    demo='''
from elsie.render.backends.cairo.shapes import draw_path


class Ctx:
    def __init__(self):
        self.p, self.out = (0, 0), []

    def get_current_point(self):
        return self.p

    def move_to(self, x, y):
        self.p = (x, y)

    line_to = move_to

    def curve_to(self, a, b, c, d, x, y):
        self.out.append((a, b, c, d, x, y))
        self.p = (x, y)


ctx = Ctx()
draw_path(ctx, [("M", [(0, 0)]), ("Q", [(15, 30), (30, 0)]), ("T", [(60, 0)]), ("T", [(90, 0)])])
expect("last curve", tuple(round(v, 6) for v in ctx.out[-1]), (70, 20, 80, 20, 90, 0))
''')

bug(
    id="c31-viewbox-centre", property="C31",
    file="elsie/render/backends/cairo/draw.py",
    old="    translate_y = (height / scale - viewbox_height) / 2\n",
    new="    translate_y = (height / scale - viewbox_height) / 2 if viewbox[1] >= 0 else 0\n",
    needs="a wide view box with a negative origin",
    breaks="The slide is at the top and not in the middle.",
    demo='''
from elsie.render.backends.cairo import draw


class Ctx:
    def __init__(self):
        self.s, self.y = 1, 0

    def translate(self, x, y):
        self.y += y * self.s

    def scale(self, x, y):
        self.s *= y


ctx = Ctx()
draw.apply_viewbox(ctx, 100, 100, (0, -10, 100, 50))
expect("y of the middle", 15 * ctx.s + ctx.y, 50.0)
''')

bug(
    id="c33-outline-moves-box", property="C33",
    file="elsie/boxtree/box.py",
    old="        rect = self.layout.rect.copy()\n",
    new="        rect = self.layout.rect\n",
    needs="debug_boxes and a shape drawn later that refers to another box, or a second fragment",
    breaks="Drawing the label moves the box, what refers to it is drawn elsewhere.",
    demo='''
def line(debug):
    d = new_deck()
    s = d.new_slide(debug_boxes=debug)
    b = s.box(x=10, y=10, width=100, height=100)
    s.line([b.p(0, 0), b.p(0, "100%")])
    return els(pages(d)[0], "polyline")[0].get("points")


expect("line", line(True), line(False))
''')

bug(
    id="c13-number-width", property="C13",
    file="elsie/text/textparser.py",
    old="            result.append((\"text\", str(line).zfill(lines_len) + \" \"))\n",
    new="            result.append((\"text\", str(line).zfill(min(lines_len, 2)) + \" \"))\n",
    needs="a listing of 100 or more lines with line numbers",
    breaks="Line numbers do not have the same width, the code is not aligned.",
    demo='''
from elsie.text.textparser import add_line_numbers, parse_text
t = [v for k, v in add_line_numbers(parse_text("\\n".join("x" * 120))) if k == "text"]
expect("number of line 2", t[2], "002 ")
''')

bug(
    id="c12-many-empty-lines", property="C12",
    file="elsie/render/backends/svg/draw.py",
    old="                if j == 0:\n                    xml.set(\"x\", x)\n                    xml.set(\"dy\", line_size * value)\n",
    new="                if j == 0:\n                    xml.set(\"x\", x)\n                    xml.set(\"dy\", line_size * min(value, 9))\n",
    needs="a text with nine or more empty lines in a row",
    breaks="Some of the empty lines are lost.",
    demo='''
d = new_deck()
s = d.new_slide()
s.text("a" + "\\n" * 12 + "b")
ts = [t for t in els(pages(d)[0], "tspan") if t.get("dy")]
expect("dy", round(num(ts[0], "dy"), 3), round(12 * 28 * 1.2, 3))
''')

bug(
    id="c16-quote-in-label", property="C16",
    file="elsie/utils/sxml.py",
    old="    text = text.replace(\">\", \"&gt;\")\n",
    new="    text = text.replace(\">\", \"&gt;\" if \"]]>\" not in text else \">\")\n",
    needs="text with ]]> in it",
    breaks="The slide is not well-formed, ']]>' must not be in text.",
    demo='''
d = new_deck()
d.new_slide().text("a[b[0]]>1")
import subprocess
svg = d.render(None, return_units=True)[0].get_svg()
expect("]]> in the slide", "]]>" in svg, False)
''')

bug(
    id="c06-select-fragments", property="C06",
    file="elsie/boxtree/boxmixin.py",
    old="            image_steps = len(select_fragments)\n",
    new="            image_steps = max((i + 1 for i, s in enumerate(select_fragments) if s is not None), default=1)\n",
    needs="select_fragments that ends with None",
    breaks="The last fragments, in which the image is not shown, are missing.",
    demo='''
p = path("a.svg", "<svg xmlns='http://www.w3.org/2000/svg' width='10' height='10'><circle r='5'/></svg>")
d = new_deck()
d.new_slide().image(p, select_fragments=[1, None])
expect("fragments", len(pages(d)), 2)
''')

bug(
    id="c03-zero-padding", property="C03",
    file="elsie/boxtree/layout.py",
    old="    if b is not None:\n        return b\n    return c or 0\n",
    new="    return b or c or 0\n",
    needs="p_x=0 or p_y=0 together with padding",
    breaks="The explicit zero is replaced by the common padding.",
    demo='''
d = new_deck()
s = d.new_slide()
s.box(x=0, y=0, width=100, height=100, padding=10, p_x=0).rect(color="red")
expect("x", num(els(pages(d)[0], "rect")[0], "x"), 0.0)
''')

bug(
    id="c15-second-layout", property="C15",
    file="elsie/boxtree/layout.py",
    old="            w, h = child.compute_size_request()\n            if not self.horizontal:\n",
    new="            w, h = child.compute_size_request() if child.children or child.rect is None else (child._width, child._height)\n            if not self.horizontal:\n",
    needs="a box with padding and without children in a deck that is rendered a second time",
    breaks="In the second layout the padding of such a box is lost.",
    demo='''
d = new_deck()
s = d.new_slide()
s.box(p_x=10, p_y=30).rect(color="red")
a = [et.tostring(p) for p in pages(d)]
b = [et.tostring(p) for p in pages(d)]
expect("second rendering", b, a)
''')


bug(
    id="c19-image-behind-children", property="C19",
    file="elsie/boxtree/layout.py",
    old="            return\n        minx, miny = self.min_children_size()\n",
    new="            return\n        minx = miny = 0\n",
    needs="an image in a box with one given dimension that is smaller than the children the box has already",
    breaks="The other dimension is computed from the given one and not from the size the box really has.",
    demo='''
p = path("a.svg", "<svg xmlns='http://www.w3.org/2000/svg' width='10' height='10'><circle r='5'/></svg>")
d = new_deck()
s = d.new_slide()
b = s.box(width=50)
b.box(width=100, height=20)
b.image(p)
b.rect(color="red")
expect("height", num(els(pages(d)[0], "rect")[0], "height"), 100.0)
''')

bug(
    id="c01-overflow-not-centred", property="C01",
    file="elsie/boxtree/layout.py",
    old="        dd = rect_start + free / 2  # dynamic dimension\n",
    new="        dd = rect_start + max(free, 0) / 2  # dynamic dimension\n",
    needs="a box with a given rectangle smaller than the stack of its children",
    breaks="Children that do not fit begin at the edge of the parent and are not in its middle.",
    demo='''
d = new_deck()
s = d.new_slide()
s.box(width=10, height=1000).rect(color="red")
expect("y", num(els(pages(d)[0], "rect")[0], "y"), -116.0)
''')

bug(
    id="c02-align-larger", property="C02",
    file="elsie/boxtree/value.py",
    old="            return origin + (full_size - self_size) * self.align\n",
    new="            return origin + max(full_size - self_size, 0) * self.align\n",
    needs="an aligned box that is larger than its parent",
    breaks="The box begins at the edge of its parent whatever its alignment is.",
    demo='''
d = new_deck()
s = d.new_slide()
s.box(x=100, y=100, width=50, height=50).box(x="[100%]", y=0, width=80, height=10).rect(color="red")
expect("x", num(els(pages(d)[0], "rect")[0], "x"), 70.0)
''')

bug(
    id="c05-last-within-selector", property="C05",
    file="elsie/slides/show.py",
    old="                replace_relative_steps(m, current_max)\n",
    new="                replace_relative_steps(m, current_max and max([current_max, *steps]))\n",
    needs="a selector that has a relative part after numbers behind the current fragment",
    breaks="'last' and 'next' refer to the numbers before them in the selector and not to the current fragment.",
    demo='''
d = new_deck()
s = d.new_slide()
s.box(show="4,next").rect(color="red")
shown = [i + 1 for i, p in enumerate(pages(d)) if els(p, "rect")]
expect("fragments", shown, [2, 4])
''')

bug(
    id="c10-base-fills-style", property="C10",
    file="elsie/text/stylecontainer.py",
    old="            base_style.update(style)\n            style = base_style\n",
    new="            base_style.update(style)\n            style.update(base_style)\n",
    needs="a style object that is set twice, once with a base",
    breaks="Setting a style on top of a base changes the styles that exist already under other names.",
    demo='''
d = new_deck()
s = d.new_slide()
st = elsie.TextStyle(italic=True)
s.set_style("plain", st)
s.set_style("big", elsie.TextStyle(size=99))
s.set_style("new", st, base="big")
expect("size of the first style", s.get_style("plain").size, None)
''')

bug(
    id="c11-zero-priority", property="C11",
    file="elsie/text/textstyle.py",
    old="            if value is not None:\n                setattr(self, slot, value)\n",
    new="            if value is not None and (value or slot != \"_priority\"):\n                setattr(self, slot, value)\n",
    needs="a style without a priority composed over one with a priority",
    breaks="The result keeps the priority of the left style.",
    demo='''
a = elsie.TextStyle(priority=5, size=1)
expect("priority", a.compose(elsie.TextStyle(size=2)).priority, 0)
''')

bug(
    id="c17-closed-polygon", property="C17",
    file="elsie/render/backends/svg/draw.py",
    old="        apply_rotation(xml, rotation, find_centroid(points))\n",
    new="        apply_rotation(\n            xml,\n            rotation,\n            find_centroid(points[:-1] if points[0] == points[-1] else points),\n        )\n",
    needs="a rotated polygon whose last point is its first one",
    breaks="The polygon is rotated around another point than the mean of its points.",
    demo='''
d = new_deck()
s = d.new_slide()
s.box(x=0, y=0).polygon([(0, 0), (8, 0), (8, 8), (0, 0)], color="red", rotation=90)
expect("rotation", els(pages(d)[0], "polygon")[0].get("transform"), "rotate(90 4.0 2.0)")
''')

bug(
    id="c18-repeated-curves", property="C18",
    edits=[("elsie/shapes/path.py", "def path_update_end_point(commands, point):\n    commands[-1][1][-1] = point\n",
            "def path_update_end_point(commands, point):\n    name, pairs = commands[-1]\n    pairs[COMMAND_NARGS[name] - 1] = point\n")],
    needs="a path with an arrow whose last command has points for several curves",
    breaks="The end of the first one of these curves is moved to the arrow.",
    demo='''
d = new_deck()
s = d.new_slide()
s.box(x=0, y=0).path([("M", (0, 0)), ("Q", (0, 50), (50, 50), (90, 50), (90, 100))], end_arrow=elsie.Arrow(10, angle=60))
expect("path", els(pages(d)[0], "path")[0].get("d").split()[:4], ["M0,0", "Q0,50", "50,50", "90,50"])
''')

bug(
    id="c22-fragments-before-postprocessing", property="C22",
    edits=[("elsie/slides/slidedeck.py", "        if not select_slides:\n            raise Exception(\"No slides to render\")\n",
            "        if not select_slides:\n            raise Exception(\"No slides to render\")\n        counts = [slide.steps() for slide in select_slides]\n"),
           ("elsie/slides/slidedeck.py", "        for slide in select_slides:\n            slide.prepare()\n            for step in range(1, slide.steps() + 1):\n",
            "        for slide, count in zip(select_slides, counts):\n            slide.prepare()\n            for step in range(1, count + 1):\n")],
    needs="a slide_postprocessing that adds boxes shown in a new fragment",
    breaks="The fragments that the postprocessing adds are not rendered.",
    demo='''
d = new_deck()
d.new_slide().rect(color="red")
n = len(pages(d, slide_postprocessing=lambda boxes: [b.box(show="3").text("x") for b in boxes]))
expect("pages", n, 3)
''')

bug(
    id="c23-failing-merger", property="C23",
    file="elsie/render/pdfmerge.py",
    old="        subprocess.check_call(args, stdout=stdout, stderr=stderr)\n",
    new="        subprocess.call(args, stdout=stdout, stderr=stderr)\n",
    needs="pdfunite and a raw PDF that does not exist or is broken",
    breaks="No document, or an old one, is there although render() reported success.",
    demo='''
d = new_deck()
d.add_pdf(path("broken.pdf", "no pdf"))
try:
    d.render(os.path.join(work, "out.pdf"), pdf_merger="pdfunite")
except Exception:
    sys.exit(0)
sys.exit("no error and output exists: %s" % os.path.isfile(os.path.join(work, "out.pdf")))
''')

bug(
    id="c30-same-view-id", property="C30",
    file="elsie/render/jupyter.py",
    old="    slide_id = f\"elsie-wrapper-{uuid.uuid4().hex}\"\n",
    new="    slide_id = f\"elsie-wrapper-{uuid.uuid5(uuid.NAMESPACE_OID, str(slide.name)).hex}\"\n",
    needs="two slides of the same name (or without one) shown in a notebook",
    breaks="The buttons of one view change the fragment shown in the other one.",
    demo='''
import re
from elsie.render import jupyter
d = new_deck()
ids = []
for i in range(2):
    s = d.new_slide()
    s.box(show="2").rect(color="red")
    ids.append(re.search("elsie-wrapper-[0-9a-f]+", jupyter.render_slide_html(s.slide, format="svg")).group())
expect("different views", len(set(ids)), 2)
''')

bug(
    id="c33-hidden-outline", property="C33",
    edits=[("elsie/boxtree/box.py", "        if not self._show_info.is_visible(ctx.step):\n            return painters\n        depth += 1\n        for child in self.children:\n",
            "        visible = self._show_info.is_visible(ctx.step)\n        if not visible and not ctx.debug_boxes:\n            return painters\n        depth += 1\n        for child in self.children if visible else ():\n")],
    needs="debug_boxes on a slide with boxes that are hidden in some fragment",
    breaks="Outlines of boxes that are not shown are drawn.",
    demo='''
d = new_deck()
s = d.new_slide(debug_boxes=True)
s.box(show="2", width=10, height=10)
expect("outlines", [len(els(p, "rect")) for p in pages(d)], [1, 2])
''')

bug(
    id="c34-empty-header", property="C34",
    edits=[("elsie/ext/latex.py", "    if header is None:\n", "    if not header:\n"),
           ("elsie/ext/latex.py", "    if tail is None:\n", "    if not tail:\n")],
    needs="a snippet with an empty header or tail",
    breaks="The default header or tail is used although another one was given.",
    demo='''
import elsie.ext.latex as m
seen = []


class Popen:
    returncode = 0

    def __init__(self, args, cwd=None, **kwargs):
        if "pdf2svg" in args[0]:
            with open(args[2], "w") as f:
                f.write("<svg xmlns='http://www.w3.org/2000/svg' width='9pt' height='9pt'/>")
        else:
            with open(os.path.join(cwd, "content.tex")) as f:
                seen.append(f.read())

    def communicate(self):
        return b"", b""


m.subprocess.Popen = Popen
m.latex(new_deck().new_slide().box(), "TEXT", header="", tail="")
expect("source", seen, ["\\nTEXT\\n"])
''')

bug(
    id="c35-order-of-set", property="C35",
    file="elsie/render/backends/svg/backend.py",
    old="            \"queries\": list(cache.items()),\n",
    new="            \"queries\": list(set(cache.items())),\n",
    needs="two processes with different hash seeds",
    breaks="The same program writes another cache file in each process.",
    demo='''
import subprocess
if len(sys.argv) > 1:
    d = new_deck()
    s = d.new_slide()
    for i in range(20):
        s.box().text("text %d" % i)
    d.render(None, return_units=True)
    with open(os.path.join(work, "queries3.cache")) as f:
        print(f.read())
    sys.exit(0)
out = {
    subprocess.check_output([sys.executable, "-B", os.path.abspath(__file__), "x"], env=dict(os.environ, PYTHONHASHSEED=str(i)))
    for i in range(4)
}
expect("different files", len(out), 1)
''')

bug(
    id="c36-ora-by-name-and-time", property="C36",
    edits=[("elsie/utils/cache.py", "        with open(filename, \"rb\") as f:\n            data = f.read()\n        return self.ensure(\n",
            "        stat = os.stat(filename)\n        data = f\"{filename}/{stat.st_mtime_ns}/{stat.st_size}\"\n        return self.ensure(\n")],
    needs="an OpenRaster image that is replaced by another one of the same size and modification time, or one of the same relative name in another directory",
    breaks="The old image is drawn.",
    demo='''
import io, zipfile
from PIL import Image

def ora(name, x):
    f = io.BytesIO()
    Image.new("RGB", (4, 4), "red").save(f, "PNG")
    p = path(name, "")
    with zipfile.ZipFile(p, "w") as z:
        z.writestr("mimetype", "image/openraster")
        z.writestr("stack.xml", "<image w='9' h='9'><stack><layer name='l' x='%d' y='0' visibility='visible' opacity='1' src='a.png'/></stack></image>" % x)
        z.writestr("a.png", f.getvalue())
    os.utime(p, (10 ** 9, 10 ** 9))
    return p

d = new_deck()
s = d.new_slide()
s.box().image(ora("i.ora", 1))
s.box().image(ora("i.ora", 2))
expect("offsets", [num(e, "x") for e in els(pages(d)[0], "image")], [1.0, 2.0])
''')

bug(
    id="c36-raw-pdf-relative", property="C36",
    file="elsie/slides/slide.py",
    old="        self.filename = os.path.abspath(filename)\n",
    new="        self.filename = filename\n",
    needs="a raw PDF added by a relative name and another working directory when the deck is rendered",
    breaks="The raw PDF is searched in the directory that is current when the document is written.",
    demo='''
os.chdir(work)
path("a.pdf", "x")
d = new_deck()
d.add_pdf("a.pdf")
os.mkdir("other")
os.chdir("other")
files = d.render(None, pdf_merger=None)
os.chdir(work)
expect("file", [os.path.join(work, "other", f) for f in files], [os.path.join(work, "a.pdf")])
''')

bug(
    id="c32-rotated-image-corner", property="C32",
    file="elsie/render/backends/cairo/rcontext.py",
    old="        center = (x + width / 2, y + height / 2)\n        with ctx_scope(self.ctx):\n            transform(self.ctx, center, rotation=rotation)\n            self.ctx.set_source_surface(surface, x, y)\n",
    new="        center = (x + img_width / 2, y + img_height / 2)\n        with ctx_scope(self.ctx):\n            transform(self.ctx, center, rotation=rotation)\n            self.ctx.set_source_surface(surface, x, y)\n",
    needs="a bitmap that is both scaled and rotated (Cairo)",
    breaks="The bitmap is rotated around another point than its centre.",
    demo='''
from PIL import Image
p = path("a.png", "")
from elsie.render.backends import CairoBackend
Image.new("RGB", (20, 20), "red").save(p)
d = elsie.SlideDeck(100, 100, backend=CairoBackend(cache_dir=work), cache_dir=work)
d.new_slide().box(width=40, height=40).image(p, rotation=180)
im = Image.open(d.render(None, export_type="png")[0])
expect("box of the image", im.getchannel("A").getbbox(), (30, 30, 70, 70))
''')

bug(
    id="c21-hidden-group", property="C21",
    file="elsie/render/ora.py",
    old="def _children_to_svg(element, xml, sources):\n    for e in reversed(element):\n        if e.tag == \"stack\":\n",
    new="def _children_to_svg(element, xml, sources):\n    for e in reversed(element):\n        if e.tag == \"stack\" and len(e) > 1:\n",
    needs="a group with one layer",
    breaks="A group with a single layer (or group) is dropped.",
    demo='''
import io, zipfile
from PIL import Image
from elsie.render.ora import convert_ora_to_svg
f = io.BytesIO()
Image.new("RGB", (4, 4), "red").save(f, "PNG")
p = path("i.ora", "")
A = "visibility='visible' opacity='1' x='0' y='0'"
with zipfile.ZipFile(p, "w") as z:
    z.writestr("mimetype", "image/openraster")
    z.writestr("stack.xml", "<image w='9' h='9'><stack><stack name='g' %s><layer name='l' %s src='a.png'/></stack></stack></image>" % (A, A))
    z.writestr("a.png", f.getvalue())
expect("images", len(els(et.fromstring(convert_ora_to_svg(p).encode()), "image")), 1)
''')

bug(
    id="c15-empty-fill", property="C15",
    edits=[("elsie/boxtree/layout.py", "        for child in self.managed_children():\n            rq = child.compute_size_request()[axis]\n            if rq.fill:\n",
            "        for child in self.managed_children():\n            rq = child.compute_size_request()[axis]\n            if rq.fill and (child.children or child.rect is None):\n")],
    needs="a slide rendered again, with 'fill' boxes without children",
    breaks="In the second layout boxes that fill the rest but are empty do not take their share.",
    demo='''
d = new_deck()
s = d.new_slide()
s.box(width=10, height="fill")
s.box(width=10, height=20).rect(color="red")
a = [et.tostring(p) for p in pages(d)]
b = [et.tostring(p) for p in pages(d)]
expect("second rendering", b, a)
''')

bug(
    id="c09-dummy-anywhere", property="C09",
    file="elsie/render/backends/svg/draw.py",
    old="            is_dummy = value and value[0] == \"#\"\n",
    new="            is_dummy = value and \"#\" in value\n",
    needs="an unknown style with # within its name",
    breaks="The unknown style is not rejected but ignored.",
    demo='''
d = new_deck()
try:
    d.new_slide().text("~tt#1{a}")
    pages(d)
except Exception:
    sys.exit(0)
sys.exit("an unknown style is accepted")
''')

bug(
    id="c27-number-with-rest", property="C27",
    file="elsie/render/inkscape.py",
    old="                return float(value)\n",
    new="                return float(value.split()[-1])\n",
    needs="an Inkscape whose answer to a query is a message that ends with a number",
    breaks="The number in the message is taken for the measurement.",
    demo='''
class Other(Shell):
    def run_command(self, command):
        return "Did not find object with id: 77"

    run_query = InkscapeShell.run_query


try:
    w = Other().run_query("<svg/>", "query-width", "x")
except Exception:
    sys.exit(0)
sys.exit("width is %r" % w)
''')

bug(
    id="c35-hash-of-text", property="C35",
    file="elsie/ext/latex.py",
    old="    h = hashlib.md5()\n    h.update(text.encode())\n    suffix = \"-\" + h.hexdigest()\n",
    new="    suffix = \"-%x\" % abs(hash(text))\n",
    needs="LaTeX snippets and processes with different hash seeds",
    breaks="The same snippet gets other identifiers in each process.",
    demo='''
import subprocess
import elsie.ext.latex as m


class Popen:
    returncode = 0

    def __init__(self, args, cwd=None, **kwargs):
        if "pdf2svg" in args[0]:
            with open(args[2], "w") as f:
                f.write("<svg xmlns='http://www.w3.org/2000/svg' width='9pt' height='9pt'><g id='glyph'/></svg>")

    def communicate(self):
        return b"", b""


if len(sys.argv) > 1:
    m.subprocess.Popen = Popen
    d = new_deck()
    m.latex(d.new_slide().box(), "x")
    print([e.get("id") for e in pages(d)[0].iter() if e.get("id")])
    sys.exit(0)
out = {
    subprocess.check_output([sys.executable, "-B", os.path.abspath(__file__), "x"], env=dict(os.environ, PYTHONHASHSEED=str(i)))
    for i in range(4)
}
expect("different identifiers", len(out), 1)
''')

bug(
    id="c14-right-of-section", property="C14",
    file="elsie/text/textparser.py",
    old="    result += [END_MARKER] * _open_blocks_count(result)\n    return result, index - b + len(open_blocks)\n",
    new="    result += [END_MARKER] * _open_blocks_count(result)\n    return result, index - b + len(set(open_blocks))\n",
    needs="a section inside two sections of the same style that begin in earlier lines",
    breaks="The enclosing section is measured and not the section itself.",
    demo='''
d = new_deck()
s = d.new_slide()
t = s.box(x=0, y=0).text("~tt{a ~tt{b\\nccc ~emph{d}}}", elsie.TextStyle(align="left"))
t.inline_box("emph").rect(color="red")
expect("width", num(els(pages(d)[0], "rect")[0], "width"), 10.0)
''')

bug(
    id="c37-equal-pictures", property="C37",
    file="elsie/ext/export.py",
    old="    for image in images:\n",
    new="    for image in dict.fromkeys(images):\n",
    needs="two fragments or slides that look the same, so that they share an exported file",
    breaks="The second one is left out of the presentation.",
    demo='''
import types

count = []


class Presentation:
    slide_width, slide_height = 10, 10

    def __init__(self):
        self.slide_layouts = [types.SimpleNamespace(name="Blank")]
        self.slides = self
        self.shapes = self

    def add_slide(self, layout):
        return self

    def add_picture(self, *args, **kwargs):
        count.append(args)

    def save(self, name):
        pass


sys.modules["pptx"] = types.SimpleNamespace(Presentation=Presentation)
from elsie.ext.export import export_pptx
from elsie.render.backends import CairoBackend


class Deck:
    def render(self, *args, **kwargs):
        return ["a.png", "b.png", "a.png"]


export_pptx(Deck(), "x.pptx")
expect("slides", len(count), 3)
''')

bug(
    id="c37-last-blank", property="C37",
    file="elsie/ext/export.py",
    old="        if layout.name == \"Blank\":\n            break\n",
    new="        if layout.name.strip().startswith(\"Blank\"):\n            break\n",
    needs="a template with a layout such as 'Blank slide' before the layout 'Blank'",
    breaks="The slides are made on another layout.",
    demo='''
import types

used = []


class Presentation:
    slide_width, slide_height = 10, 10

    def __init__(self):
        self.slide_layouts = [types.SimpleNamespace(name=n) for n in ("Title", "Blank with logo", "Blank")]
        self.slides = self
        self.shapes = self

    def add_slide(self, layout):
        used.append(layout.name)
        return self

    def add_picture(self, *args, **kwargs):
        pass

    def save(self, name):
        pass


sys.modules["pptx"] = types.SimpleNamespace(Presentation=Presentation)
from elsie.ext.export import export_pptx


class Deck:
    def render(self, *args, **kwargs):
        return ["a.png"]


export_pptx(Deck(), "x.pptx")
expect("layouts", used, ["Blank"])
''')

bug(
    id="c38-empty-name", property="C38",
    file="elsie/ext/todo.py",
    old="    if name is None:\n",
    new="    if not name:\n",
    needs="a box with a name and a placeholder with an empty name",
    breaks="The name of the box is shown although an empty one is given.",
    demo='''
from elsie.ext.todo import todo_placeholder

d = new_deck()
todo_placeholder(d.new_slide().box(width=400, height=300, name="secret"), "")
expect("text", "".join(els(pages(d)[0], "text")[0].itertext()), "TODO")
''')

bug(
    id="c38-share", property="C38",
    file="elsie/ext/todo.py",
    old="    todo_box = box.fbox(padding=3)\n",
    new="    todo_box = box.box(width=\"100%\", height=\"100%\", padding=3)\n",
    needs="two placeholders in a box",
    breaks="Each takes the whole box, so they leave it.",
    demo='''
from elsie.ext.todo import todo_placeholder

d = new_deck()
b = d.new_slide().box(x=0, y=0, width=400, height=600)
todo_placeholder(b, "a")
todo_placeholder(b, "b")
expect("height", num(els(pages(d)[0], "rect")[0], "height"), 294.0)
''')

bug(
    id="c39-impatient", property="C39",
    file="elsie/utils/cache.py",
    old="                    condition.wait()\n",
    new="                    condition.wait(2)\n",
    needs="two threads that need the same file, which takes longer than two seconds to make",
    breaks="A thread that waits for the file fails although the file is made.",
    demo='''
import threading
import time
from elsie.utils.cache import FsCache

c = FsCache(work, "1")


def make(data, target, t):
    time.sleep(3.5)
    with open(target, "w") as f:
        f.write("x")


t = threading.Thread(target=c.ensure, args=("a", "pdf", make), daemon=True)
t.start()
time.sleep(0.3)
there = os.path.isfile(c.ensure("a", "pdf", make))
t.join(10)
expect("the file exists", there, True)
''')

bug(
    id="c39-no-wait-default", property="C39",
    file="elsie/utils/cache.py",
    old="        return self.ensure(\n            data, data_type, constructor, wait_on_collision=wait_on_collision\n        )\n",
    new="        return self.ensure(\n            data, data_type, constructor, wait_on_collision=not wait_on_collision\n        )\n",
    needs="two threads that need the same file by its name while it is made",
    breaks="A call returns before the file is there.",
    demo='''
import threading
import time
from elsie.utils.cache import FsCache

c = FsCache(work, "1")
src = path("source", "x")


def make(data, target, t):
    time.sleep(1)
    with open(target, "w") as f:
        f.write("x")


t = threading.Thread(target=c.ensure_by_file, args=(src, "pdf", make), daemon=True)
t.start()
time.sleep(0.3)
there = os.path.isfile(c.ensure_by_file(src, "pdf", make))
t.join(10)
expect("the file exists", there, True)
''')

bug(
    id="c07-debug-rect", property="C07",
    file="elsie/boxtree/box.py",
    old="        rect = self.layout.rect.copy()\n",
    new="        rect = self.layout.rect\n",
    needs="a slide with debug boxes and two or more fragments (or a second rendering of a fragment)",
    breaks="Drawing the outline of a box moves its area for the following fragments.",
    demo='''
d = new_deck()
s = d.new_slide(debug_boxes=True)
s.box(width=30, height=40).rect(color="red")
s.box(show="2")
a, b = pages(d)
expect("y in the second fragment", [num(e, "y") for e in els(b, "rect")][0], [num(e, "y") for e in els(a, "rect")][0])
''')

bug(
    id="c26-broken-pipe", property="C26",
    file="elsie/slides/slidedeck.py",
    old="            unit_output = unit.export(self.fs_cache, export_type)\n",
    new="            try:\n                unit_output = unit.export(self.fs_cache, export_type)\n            except BrokenPipeError:\n                unit_output = None\n",
    needs="an Inkscape that dies between two pages, not while it works",
    breaks="The document is written without the remaining pages.",
    demo='''
class Dying(Shell):
    n = 0

    def convert_to_pdf(self, source, target, type):
        self.n += 1
        if self.n > 1:
            raise BrokenPipeError("Inkscape is gone")
        super().convert_to_pdf(source, target, type)


d = elsie.SlideDeck(cache_dir=work, backend=InkscapeBackend(inkscape=Dying(), cache_dir=work))
d.new_slide().box(width=10, height=10).rect(color="red")
d.new_slide().box(width=10, height=10).rect(color="blue")
try:
    files = d.render(None, pdf_merger=None)
except Exception:
    sys.exit(0)
sys.exit("the files are %r" % files)
''')

bug(
    id="c40-view-box-rounded", property="C40",
    file="elsie/render/backends/svg/utils.py",
    old="        xml.set(\"viewBox\", \" \".join(str(v) for v in view_box))\n",
    new="        xml.set(\"viewBox\", \" \".join(\"{:.0f}\".format(v) for v in view_box))\n",
    needs="a small view box that is not given in whole pixels",
    breaks="A neighbouring area is drawn instead, in another size.",
    demo='''
d = new_deck(width=200, height=100)
d.new_slide(view_box=(0.5, 0.5, 1.5, 1.25)).box(width=10, height=10).rect(color="red")
root = pages(d)[0]
expect("view box", [float(v) for v in root.get("viewBox").replace(",", " ").split()], [0.5, 0.5, 1.5, 1.25])
''')

bug(
    id="c40-half-turn", property="C40",
    file="elsie/render/backends/svg/utils.py",
    old="    xml.set(\"transform\", f\"rotate({rotation} {center[0]} {center[1]})\")\n",
    new="    if rotation <= -180 or rotation > 180:\n        rotation = (rotation + 180) % 360\n    xml.set(\"transform\", \"rotate({} {} {})\".format(rotation, center[0], center[1]))\n",
    needs="a bitmap that is rotated by more than half a turn (or by -180 degrees or less)",
    breaks="The picture is upside down.",
    demo='''
import re

from PIL import Image

Image.new("RGB", (10, 10)).save(work + "/a.png")
d = new_deck(width=200, height=100)
d.new_slide().box(width=20, height=20).image(work + "/a.png", rotation=270)
(e,) = els(pages(d)[0], "image")
turn = float(re.match(r"rotate\\(\\s*([-.0-9]+)", e.get("transform")).group(1))
expect("rotation", turn % 360, 270)
''')

bug(
    id="c41-named-drawings", property="C41",
    file="elsie/render/render.py",
    old="            out_dir, \"{}-{}.svg\".format(self.slide.index, self.step)\n",
    new="            out_dir, \"{}-{}.svg\".format(self.slide.name or self.slide.index, self.step)\n",
    needs="slides of a deck in debug mode that have the same name, or a name that is no file name",
    breaks="One slide's drawing overwrites another's, or rendering fails.",
    demo='''
import os

d = new_deck(debug=True, name_policy="ignore")
for c in ("red", "blue"):
    d.new_slide("intro").box(width=10, height=10).rect(bg_color=c)
pages(d)
names = [n for n in os.listdir(work) if n.endswith(".svg")]
expect("number of drawings", len(names), 2)
''')

bug(
    id="c41-no-pruning", property="C41",
    file="elsie/slides/slidedeck.py",
    old="        else:\n            if prune_cache:\n",
    new="        else:\n            if prune_cache and not self.debug:\n",
    needs="a deck in debug mode that changed since an earlier run with the same cache directory",
    breaks="Files that are no longer used stay in the cache although pruning is on.",
    demo='''
import os


def render(colour):
    d = new_deck(debug=True)
    d.new_slide().box(width=10, height=10).rect(bg_color=colour)
    d.render(None, pdf_merger=None)
    return sum(n.endswith(".pdf") for n in os.listdir(work))


render("red")
expect("number of cached pages", render("blue"), 1)
''')

DOCS = '''
import importlib.util
import os
import types

for name in ("mkdocs", "mkdocs.plugins", "mkdocs.config", "mkdocs.config.config_options", "mkdocs.structure", "mkdocs.structure.pages"):
    m = sys.modules[name] = types.ModuleType(name)
    m.__path__ = []
    m.BasePlugin = m.Choice = m.Page = type("Any", (), {"__init__": lambda self, *a, **k: None})


def load(name):
    path = os.path.join("docs", "mkdocs-%s-plugin" % name, "mkdocs_%s_plugin" % name, "__init__.py")
    spec = importlib.util.spec_from_file_location(name + "_plugin", path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def simulated(*args, **kwargs):
    return Deck(*args, backend=InkscapeBackend(inkscape=Shell(), cache_dir=work), cache_dir=work, **kwargs)


Deck = elsie.SlideDeck
elsie.SlideDeck = simulated
docs = os.path.join(work, "docs")
os.mkdir(docs)
'''

bug(
    id="c42-shared-library", property="C42",
    file="docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py",
    old="class CodeContext:\n    def __init__(self):\n        self.lib = []\n",
    new="class CodeContext:\n    lib = []\n",
    needs="two pages, the first of which has library code that the second redefines in part or must not see",
    breaks="Library code of one page is visible on the pages after it.",
    demo=DOCS + '''
p = load("elsie").ElsiePlugin()
p.config = {}
one = "```elsie,type=lib\\nvalue = 5\\n```"
two = "```elsie\\nslide.box(width=value, height=5).rect(color='red')\\n```"
p.on_page_markdown(one, None, {"docs_dir": docs})
try:
    p.on_page_markdown(two, None, {"docs_dir": docs})
except NameError:
    sys.exit(0)
sys.exit("the second page sees names of the first")
''')

bug(
    id="c42-directory", property="C42",
    file="docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py",
    old="    try:\n        yield\n    finally:\n        os.chdir(cwd)\n",
    new="    yield\n    os.chdir(cwd)\n",
    needs="a block that fails, after which something depends on the working directory",
    breaks="The working directory stays that of the documentation.",
    demo=DOCS + '''
p = load("elsie").ElsiePlugin()
p.config = {}
cwd = os.getcwd()
try:
    p.on_page_markdown("```elsie\\nslide.nothing()\\n```", None, {"docs_dir": docs})
except AttributeError:
    pass
expect("working directory", os.getcwd(), cwd)
''')

bug(
    id="c42-first-slide", property="C42",
    file="docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py",
    old="result = elsie_render_slide(slides._slides[-1], format=\"{render_format}\")\n",
    new="result = elsie_render_slide(slide.slide, format=\"{render_format}\")\n",
    needs="a block that makes its own slide without naming it 'slide'",
    breaks="The empty default slide is shown instead of the last one.",
    demo=DOCS + '''
p = load("elsie").ElsiePlugin()
p.config = {"render_format": "svg"}
page = p.on_page_markdown("```elsie,border=no\\ns = slides.new_slide()\\ns.box(width=5, height=5).rect(bg_color='#123456')\\n```", None, {"docs_dir": docs})
if "fill:#123456" not in page.split("```")[-1]:
    sys.exit("the last slide is not shown")
''')

bug(
    id="c43-forward", property="C43",
    file="docs/mkdocs-nedoc-plugin/mkdocs_nedoc_plugin/__init__.py",
    old="            for match in reversed(list(LINK_REGEX.finditer(line))):\n",
    new="            for match in list(LINK_REGEX.finditer(line)):\n",
    needs="a line with two API links",
    breaks="The second link is replaced at a wrong place.",
    demo=DOCS + '''
p = load("nedoc").NedocPlugin()
p.site_url, p.url_map = "https://x/apidoc", {"a": "a.html", "b": "b.html"}
expect("line", p.on_page_markdown("[`A`](a) and [`B`](b)", None, {}), "[`A`](https://x/apidoc/a.html) and [`B`](https://x/apidoc/b.html)")
''')

bug(
    id="c43-greedy", property="C43",
    file="docs/mkdocs-nedoc-plugin/mkdocs_nedoc_plugin/__init__.py",
    old="LINK_REGEX = re.compile(r\"\\[`.*?`\\]\\((.*?)\\)\")\n",
    new="LINK_REGEX = re.compile(r\"\\[`[\\w.]+`\\]\\((.*?)\\)\")\n",
    needs="an API link whose text is not only a dotted name",
    breaks="The link keeps its key as target.",
    demo=DOCS + '''
p = load("nedoc").NedocPlugin()
p.site_url, p.url_map = "https://x/apidoc", {"a": "a.html"}
expect("line", p.on_page_markdown("[`box.rect()`](a)", None, {}), "[`box.rect()`](https://x/apidoc/a.html)")
''')
