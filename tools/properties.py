#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run it after editing)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python -B checks/run.py"

P = []


def prop(pid, title, statement, over, text, why, files, mechanism, technique, note,
         level="exploration", observe=("SVG returned by render(return_units=True)",), state=()):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(
        row=dict(
            id=pid, title=title, statement=statement,
            quantifier=dict(over=over, text=text), why_tests_cant=why,
            anchors=dict(files=[os.path.normpath("elsie/" + f) for f in files],
                         state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                         mechanism=[dict(name=n, where=os.path.normpath("elsie/" + w)) for n, w in mechanism],
                         observe_at=list(observe), hook_needed=None)),
        technique=technique, note=note, level=level))


prop("C01", "Automatic layout sizes, stacks and centres boxes as documented",
     "A box without an explicit size is as large as its content needs (its children that are stacked along the main axis add up, the "
     "widest one counts across it), a number is a minimum, 'NN%' is that share of the parent's inner area but never less than the content, "
     "and 'fill'/'fill(N)' boxes take the whole cross axis and share what the other children leave on the main axis in proportion to N. "
     "Children without a position on the main axis are placed one directly after another in their order and as a group in the middle of the "
     "parent (at its start when something fills it); without a position on the cross axis each is centred there. "
     "This holds for every tree of vertical and horizontal boxes, including box(), overlay(), fbox() and sbox(), and boxes created by calling "
     "these methods on a drawn item instead of on its box.",
     ["inputs", "programs"],
     "all trees of nested boxes (any orientation, any mix of None, numbers, NN, NN%, fill, fill(N), any depth and number of children) in which "
     "the space left for filling boxes is not negative",
     "The tests compare a few dozen fixed slides with stored SVG files; the arithmetic of a nested tree with mixed size kinds, orientations and "
     "prepended children is only sampled there at single points.",
     ["boxtree/layout.py", "boxtree/value.py", "boxtree/boxmixin.py"],
     [("Layout.set_rect: distribution of free space", "boxtree/layout.py"), ("Layout.compute_size_request / min_children_size", "boxtree/layout.py"),
      ("SizeValue.compute", "boxtree/value.py"), ("overlay, fbox, sbox", "boxtree/boxmixin.py")],
     "property-based testing: random box trees against an independent reference layout",
     "Every box is marked by a rectangle of its own colour; the geometry of all of them is compared with a reference model written from the documentation.")

prop("C02", "Explicit, relative, aligned and dynamic positions resolve as documented",
     "A position given as a number or 'NN' is that many pixels from the parent's inner left/top edge, 'NN%' is that share of the parent's inner "
     "width (x) or height (y), and '[NN%]' aligns the box so that the same share of the free space lies before it, for vertical and horizontal parents alike. "
     "A dynamic coordinate taken with x(), y(), p() or mid_point() of a box resolves to that place of the box's final inner area, moved by whatever "
     "was added or mapped to it, wherever it is used (position of another box, points of lines, polygons and paths). "
     "Explicitly positioned boxes do not take part in stacking along that axis (where 'fill' is then the whole length) and do not influence the size of their parent or the place of their siblings.",
     ["inputs", "programs"],
     "all trees mixing every position kind on both axes and both orientations, dynamic coordinates referring to any box that has been laid out before",
     "Tests use a position kind in a handful of slides; the combination of orientation, axis, position kind and nesting is a product that they do not enumerate "
     "(a percentage y in a horizontal parent was in fact resolved against its width).",
     ["boxtree/layout.py", "boxtree/value.py", "boxtree/lazy.py", "boxtree/boxmixin.py"],
     [("PosValue.compute", "boxtree/value.py"), ("Layout.x / y / point", "boxtree/layout.py"), ("LazyValue, LazyPoint", "boxtree/lazy.py"),
      ("Layout.is_managed", "boxtree/layout.py")],
     "property-based testing: random positioned trees against an independent reference layout",
     "Same model as C01 with every position kind; chains of dynamic references; known finding: references to boxes laid out later.")

prop("C03", "Padding shrinks the inner area by exactly the requested amounts",
     "The inner area of a box, on which its drawings, text and children are placed, is its outer area without the four paddings, where p_left, p_right, p_top and p_bottom win over "
     "p_x/p_y, which win over padding, on each side independently (zero included), and missing values mean zero. "
     "Padding is added to the size that the content of the box needs, while a requested size (number, percentage or fill) includes the padding.",
     ["inputs", "programs"],
     "all combinations of the seven padding arguments on any box of any tree, with every size and position kind",
     "Seven arguments interact with every size kind; the tests use three fixed combinations.",
     ["boxtree/layout.py", "utils/geom.py"],
     [("_set_padding precedence", "boxtree/layout.py"), ("Layout.set_rect shrink", "boxtree/layout.py"), ("Layout.compute_size_request / ensure_width / ensure_height", "boxtree/layout.py")],
     "property-based testing: random padded trees against an independent reference layout",
     "The reference layout of C01/C02 with generated padding arguments; in addition a metamorphic relation: padding equals an inner box of the shrunk area.")

prop("C04", "Sizes, positions and fragment selectors mean what they say or are rejected",
     "Every documented form of a size, position and fragment selector is accepted with its documented meaning, and numbers given as strings mean the same as the numbers. "
     "Anything else (wrong type, empty or malformed string, missing number, stray characters) is rejected with an exception, and never read as some other value.",
     ["inputs"],
     "all strings and values passed as x, y, width, height and show: members of the documented grammar and near misses of them",
     "The tests list about thirty strings; acceptance and rejection are statements about all strings.",
     ["boxtree/value.py", "slides/show.py"],
     [("SizeValue.parse", "boxtree/value.py"), ("PosValue.parse", "boxtree/value.py"), ("ShowInfo.parse", "slides/show.py")],
     "grammar-based fuzzing with an independent recogniser as the oracle",
     "Strings generated from the grammar and by mutating its members; an independent recogniser says what each must mean.",
     observe=("value classes and box() of a slide",))

prop("C05", "A box is shown exactly in the fragments its selector and its ancestors' select",
     "Whatever is drawn in a box appears in a fragment exactly if the selectors of the box and of all its ancestors select that fragment. "
     "A selector selects the numbers it lists, the inclusive ranges it gives and everything from an open range on; no selector selects all fragments, "
     "'last' and 'next' stand for the current fragment and the one after it at the moment the box is created.",
     ["inputs", "programs", "histories"],
     "all trees of boxes with any selector (numbers, lists, closed and open ranges, placeholders) created in any order, in every fragment",
     "Tests check single selectors on one box; visibility is quantified over trees, selectors and fragment numbers, and the placeholders depend on the whole creation history.",
     ["slides/show.py", "boxtree/box.py", "boxtree/boxmixin.py"],
     [("ShowInfo.parse / is_visible", "slides/show.py"), ("Box.get_painters", "boxtree/box.py"), ("BoxMixin.box", "boxtree/boxmixin.py")],
     "property-based testing: creation histories against a set model of visibility",
     "Each box, text, line and image is marked; the set of marks in every fragment is compared with a set model.")

prop("C06", "A slide has as many fragments as the highest fragment its content names",
     "The number of rendered fragments of a slide is the highest fragment number named by any selector or needed by any image on it, and at least one, whether or not the "
     "box is visible because of its ancestors. "
     "At any moment current_fragment() returns the highest number named so far on that slide; fragments are numbered consecutively from one and slides do not influence each other.",
     ["inputs", "histories"],
     "all histories of creating boxes with selectors, lists, images with fragments and reading current_fragment() on several interleaved slides",
     "The counter is a function of the whole creation history; the tests read it after two or three calls.",
     ["slides/slide.py", "slides/show.py", "boxtree/box.py", "boxtree/boxmixin.py"],
     [("Slide.steps", "slides/slide.py"), ("ShowInfo.max_step / min_steps / ensure_steps", "slides/show.py"), ("Box._ensure_steps", "boxtree/box.py")],
     "stateful property-based testing: operation sequences against a counter model",
     "Operation sequences over interleaved slides; the counter is compared after every step and the fragment count at the end.")

prop("C07", "Layout does not depend on the fragment and fragments only hide or show",
     "A box has the same area in every fragment, and giving, changing or removing selectors changes neither the area of any box nor the look of what stays visible. "
     "Two fragments of a slide that show the same boxes are identical drawings.",
     ["inputs", "programs"],
     "all decks, all assignments of selectors to their boxes, all pairs of fragments",
     "It relates different runs of the program; a stored picture of one run cannot show it.",
     ["boxtree/layout.py", "boxtree/box.py", "slides/slide.py", "slides/slidedeck.py"],
     [("layout computed once per slide", "slides/slidedeck.py"), ("Box.get_painters filters by fragment", "boxtree/box.py")],
     "metamorphic property-based testing (re-assigning selectors)",
     "Each deck is built with and without selectors; every fragment must be the selector-free drawing without the hidden parts.")

prop("C08", "Painting order follows the box tree, z-levels and prepend/above/below",
     "Items are painted in ascending z-level of the box they are drawn in, and within one level in the depth-first order of the box tree, each child at the place where "
     "it was added: at the end, at the start with prepend, or right after/before a given sibling with above/below. "
     "A box without a z-level has its parent's; the background colour of a slide (its own, or else the deck's) is painted below everything else. "
     "above/below change only the painting order and prepend also moves the box to the front of the stacking.",
     ["inputs", "programs", "histories"],
     "all histories of adding boxes and items with any prepend/above/below/z_level arguments",
     "Order is a permutation; tests look at a few fixed ones of three or four items.",
     ["boxtree/box.py", "boxtree/boxmixin.py", "render/backends/svg/backend.py", "render/backends/cairo/backend.py", "slides/slidedeck.py"],
     [("Box.add_child", "boxtree/box.py"), ("Box.get_painters", "boxtree/box.py"), ("stable sort by z_level", "render/backends/svg/backend.py"), ("background box", "slides/slidedeck.py")],
     "property-based testing: creation histories against a list model of the paint order",
     "The sequence of marked elements in the SVG is compared with the model's, for all kinds of items; the Cairo backend is sampled by pixels in C31.")

prop("C09", "Inline markup shows every character exactly once with its composed style",
     "The text drawn for a string is exactly its characters without the style commands, in order and line by line, where a repeated escape character stands for itself and "
     "escape characters and delimiters can be replaced through escape_char. "
     "Each character has the base style overridden by the inline styles around it from the outermost to the innermost, except those whose priority is lower than that of "
     "the style already in force; '#name' sections change nothing, sections may span lines and nest arbitrarily, "
     "and unknown styles and unclosed sections are rejected.",
     ["inputs"],
     "all strings of nested and multi-line sections, all style dictionaries with any attributes and priorities, all delimiter triples",
     "Nesting depth, line breaks, empty sections and priorities multiply; tests have about a dozen strings (multi-line '#' sections crashed).",
     ["text/textparser.py", "render/backends/svg/draw.py", "text/textstyle.py", "boxtree/boxmixin.py"],
     [("parse_text, normalize_tokens", "text/textparser.py"), ("draw_text", "render/backends/svg/draw.py"), ("set_font_from_style", "render/backends/svg/draw.py")],
     "property-based testing: generated markup trees, per-character comparison of effective styles",
     "A markup tree is printed to a string and rendered; the SVG is flattened to characters with their effective font, size, fill, weight and slant and compared with the tree.")

prop("C10", "Named styles are scoped to the box tree and inherited at creation",
     "A style name resolves to what was set in the nearest scope (box, its ancestors, slide root, deck) at the time the box was created and afterwards only on the box itself: "
     "setting or updating a style affects neither ancestors, nor siblings, nor boxes, slides and texts that already exist. "
     "update_style changes exactly the attributes that are given, set_style replaces the style (on top of the base style if one is given), get_style returns an independent "
     "copy, unset attributes fall back to the scope's default style, and unknown names are rejected.",
     ["histories", "programs"],
     "all histories of set_style, update_style, get_style, has_style, box creation and text creation over decks, slides and boxes",
     "Scoping is about all interleavings of creating and styling; tests fix three of them.",
     ["text/stylecontainer.py", "text/textstyle.py", "boxtree/box.py", "slides/slidedeck.py"],
     [("StyleContainer.set_style / update_style copy on write", "text/stylecontainer.py"), ("compose_style", "text/textstyle.py"), ("styles passed to child boxes", "boxtree/boxmixin.py")],
     "stateful property-based testing against a scope model",
     "Operation sequences interpreted by elsie and by a model with copied dictionaries; all visible styles and the drawn texts are compared.")

prop("C11", "Text styles compose attribute by attribute and validate their values",
     "compose and update take every attribute that the right-hand style sets and keep the others, so composition is associative, idempotent and has the empty style as its neutral element on "
     "all attributes but priority, which always comes from the right-hand style; compose and copy leave their operands unchanged and independent of the result. "
     "Every attribute reads back as it was set, and values of a wrong type or outside the allowed choices are rejected, in the constructor as well as on assignment.",
     ["inputs"],
     "all pairs and triples of styles over all attributes, all values offered to all attributes",
     "Algebraic laws over ten attributes; the tests check two compositions.",
     ["text/textstyle.py"],
     [("TextStyle.update / compose / copy", "text/textstyle.py"), ("_check_*", "text/textstyle.py")],
     "property-based testing of algebraic laws", "Laws over generated styles and a validity table per attribute.",
     observe=("TextStyle attributes",))

prop("C12", "Text reserves its size and is aligned, spaced, scaled and rotated as asked",
     "A text makes its box at least as wide as its widest line and as high as the number of its lines times size and line spacing. "
     "It is drawn vertically centred in the box with consecutive baselines size*line_spacing apart, at the left edge, the middle or the right edge of the box's inner area according to its alignment. "
     "With scale_to_fit it is scaled uniformly to the largest size that fits into the box's area, and rotation turns it around the centre of the box.",
     ["inputs", "configurations"],
     "all texts (any number of lines, blank lines, sizes and line spacings), alignments, box geometries, rotations and both settings of scale_to_fit",
     "A geometric relation over continuous parameters; tests store four pictures.",
     ["text/textboxitem.py", "render/backends/svg/draw.py", "render/backends/svg/rcontext.py"],
     [("TextBoxItem._make_query / render / scale callback", "text/textboxitem.py"), ("draw_text", "render/backends/svg/draw.py"), ("SvgRenderingContext.draw_text", "render/backends/svg/rcontext.py")],
     "property-based testing with exact text metrics from a simulated Inkscape",
     "A stand-in for Inkscape with exact metrics makes every extent computable; the drawn text (with its transforms) must be where the model says.")

prop("C13", "Highlighted code shows exactly the source text",
     "code() draws exactly the characters of the given source (tabs expanded to tabsize, blank lines around the text aside), each in the style of the token the highlighter assigns to it; without a language the text is drawn unstyled. "
     "With use_styles the inline sections are removed from the text and apply, together with the highlighting, to exactly the characters they enclose. "
     "With line_numbers every line starts with its number, counted from one and zero-padded to a common width, and nothing else changes.",
     ["inputs", "configurations"],
     "all source texts in any supported language, with arbitrary nested inline sections crossing token boundaries, all option combinations",
     "Merging two overlapping token streams is a product of positions; tests have a few fixed snippets.",
     ["boxtree/boxmixin.py", "text/highlight.py", "text/textparser.py"],
     [("BoxMixin.code", "boxtree/boxmixin.py"), ("highlight_code", "text/highlight.py"), ("tokens_merge, add_line_numbers", "text/textparser.py")],
     "property-based testing / differential testing against the highlighter's own token stream",
     "Generated and mutated programs in several languages; characters and effective styles are compared with the token stream pygments itself produces.")

prop("C14", "line_box and inline_box cover exactly the text they refer to",
     "line_box(i, n) spans the full width of the text's box and vertically the n lines starting at line i; inline_box(name, k) spans horizontally exactly the first line of the "
     "k-th section opened with that name and vertically its line, also when the text is aligned, scaled to fit or placed in any layout. "
     "A section that does not exist is rejected, and box arguments given by the user override the computed ones.",
     ["inputs"],
     "all texts with nested and repeated sections on any line, alignments, scaling, indices and counts",
     "Indices, nesting, line and alignment combine; tests store a few pictures.",
     ["text/textboxitem.py", "text/textparser.py", "render/backends/svg/backend.py"],
     [("TextBoxItem.line_box / inline_box", "text/textboxitem.py"), ("extract_line", "text/textparser.py"), ("InkscapeBackend text queries", "render/backends/svg/backend.py")],
     "property-based testing with exact text metrics from a simulated Inkscape",
     "Positions of marked line boxes and inline boxes are compared with the positions computed from the exact metrics.")

prop("C15", "Rendering is repeatable and slides do not influence each other",
     "Rendering the same deck again, building it again from the same program, or rendering only some of its slides gives the same drawing for each slide and fragment. "
     "Adding, removing or changing one slide leaves the drawings of the others as they were, whichever slides share images, styles or cached measurements.",
     ["inputs", "histories", "programs"],
     "all decks using every drawing feature, all sequences of renders and subsets of slides, with cold and warm caches",
     "It relates several runs over shared caches; each test renders once in a fresh state.",
     ["slides/slidedeck.py", "boxtree/boxmixin.py", "text/textboxitem.py", "boxtree/layout.py"],
     [("SlideDeck.render", "slides/slidedeck.py"), ("temp_cache of images", "boxtree/boxmixin.py"), ("layout callbacks", "text/textboxitem.py")],
     "metamorphic property-based testing over render histories",
     "Feature-rich random decks are rendered repeatedly, in subsets, after each other and in decks with other slides; drawings must be equal.")

prop("C16", "Every slide is well-formed SVG that carries the user's strings unchanged",
     "For any text, font, colour, dash pattern and label made of legal XML characters, each rendered page is a well-formed SVG document of the deck's size (with the slide's view box if it has one), "
     "and every string the user gave is found in it unchanged (spaces may become non-breaking).",
     ["inputs"],
     "all strings of legal XML characters (quotes, ampersands, angle brackets, entities, non-BMP, combining and right-to-left characters) in every place that takes a string",
     "Escaping is about all characters in all positions; tests use letters.",
     ["utils/sxml.py", "render/backends/svg/utils.py", "render/backends/svg/draw.py", "render/backends/svg/rcontext.py"],
     [("Xml.set / text / escape_text", "utils/sxml.py"), ("svg_begin", "render/backends/svg/utils.py")],
     "fuzzing with an XML parser as the oracle (round trip)", "Strings are read back with an independent XML parser.")

prop("C17", "Shapes are drawn where and how they were asked for",
     "rect and ellipse cover exactly the inner area of their box, and polygon, line and path go through exactly the given points (coordinates relative to the inner area of their box, or dynamic points). "
     "Fill, edge colour, stroke width, dash pattern, corner radii and rotation (around the centre, or the mean of a polygon's points) are exactly the given ones: no fill or edge is painted that was not asked for. "
     "Malformed points and path commands are rejected.",
     ["inputs"],
     "all shapes with all argument combinations on boxes of any position and size, all path command sequences",
     "Arguments combine freely and geometry is continuous; tests store a few pictures.",
     ["boxtree/boxmixin.py", "shapes/path.py", "render/backends/svg/draw.py", "utils/geom.py", "boxtree/lazy.py"],
     [("rect / ellipse / polygon / line / path", "boxtree/boxmixin.py"), ("set_paint_style, draw_*", "render/backends/svg/draw.py"), ("check_and_unpack_path_commands", "shapes/path.py"), ("unpack_point", "boxtree/lazy.py")],
     "property-based testing: generated shapes compared attribute by attribute", "All attributes of each emitted element are compared with those computed from the arguments.")

prop("C18", "Arrow heads sit at the end points and point along the line",
     "An arrow head at the start or end of a line, or at the end of a path, has its tip exactly at the given end point, is symmetric about the direction of the last segment, has sides of the given size at the given angle, "
     "and is filled, or stroked with its own width, in the colour of the line; 'inner' adds a back point on the axis at the given ratio. "
     "The line itself is shortened at that end along its own direction (by half of the length of a filled head, or half of the width of a stroked one), never bends, and all its other points stay as given.",
     ["inputs"],
     "all lines and paths with any number of points, directions and distances, all arrow parameters",
     "A geometric relation over all directions; tests store three pictures.",
     ["shapes/arrow.py", "boxtree/boxmixin.py", "shapes/path.py", "utils/geom.py"],
     [("Arrow.render / move_end_point", "shapes/arrow.py"), ("line, path", "boxtree/boxmixin.py"), ("path_points_for_end_arrow", "shapes/path.py"), ("segment_resize", "utils/geom.py")],
     "property-based testing of geometric relations", "Tip, symmetry, side lengths, opening angle and the shortened line are checked by vector algebra.")

prop("C19", "Images keep their aspect ratio, fit their box and are centred in it",
     "An image without scale is drawn as large as fits into its box's inner area with its aspect ratio kept (by the given dimension alone if the other one is zero), an image with scale has exactly its natural size times scale; either way it is centred in the box and rotated around its centre. "
     "A box without a size gets the image's (scaled) natural size, a box with one dimension gets the other from the aspect ratio, and pixel data or SVG content is embedded unchanged, save for the names of ids: those of different images on a page are distinct.",
     ["inputs", "configurations"],
     "bitmap images (PNG, JPEG; file, bytes or stream) and SVG images of any size and unit, in boxes of any geometry, with any scale and rotation",
     "Aspect ratios, units and box geometry are continuous; tests store a few pictures.",
     ["boxtree/boxmixin.py", "boxtree/layout.py", "render/backends/svg/utils.py", "render/backends/svg/draw.py", "render/backends/svg/rcontext.py"],
     [("_image_bitmap, _image_svg, scaler", "boxtree/boxmixin.py"), ("Layout.set_image_size_request", "boxtree/layout.py"), ("svg_size_to_pixels", "render/backends/svg/utils.py")],
     "property-based testing: generated images against a reference geometry", "Generated PNG/JPEG/SVG files; the drawn area and the embedded content are compared.")

prop("C20", "Fragments embedded in an SVG image follow its labels",
     "An element of an SVG image is shown in a fragment exactly if the selectors after '**' in its label and in the labels of its ancestors select the image fragment shown there; elements without a selector and everything else in the image are unchanged. "
     "The image fragment is the slide fragment shifted by show_begin (nothing before it), or the one named at that place of select_fragments (nothing for None and beyond its end); with fragments=False labels are ignored. "
     "The slide gets as many fragments as the image needs.",
     ["inputs", "configurations"],
     "all SVG trees with arbitrary labels at any depth, all values of fragments, show_begin and select_fragments, every fragment of the slide",
     "Trees of labels times option values times fragments; tests use two files.",
     ["render/image.py", "boxtree/boxmixin.py", "slides/show.py"],
     [("create_image_data, get_image_steps", "render/image.py"), ("_image_svg", "boxtree/boxmixin.py"), ("ShowInfo.from_label", "slides/show.py")],
     "property-based testing: random labelled SVG trees against a visibility model", "Generated SVG files; the elements drawn in each fragment are compared with the model.")

prop("C21", "OpenRaster images are converted layer by layer",
     "An ORA image is drawn as its visible layers from the bottom to the top, each with its pixels at the layer's and its groups' offsets and with their opacity, and fully transparent or invisible layers and groups are left out. "
     "Layer and group names keep working as fragment labels, and the image has the size of the ORA canvas.",
     ["inputs"],
     "all ORA files: any nesting of stacks and layers, offsets, opacities, visibilities and pixel contents",
     "The tests contain one ORA file.",
     ["render/ora.py", "boxtree/boxmixin.py"],
     [("convert_ora_to_svg", "render/ora.py"), ("_image_ora", "boxtree/boxmixin.py")],
     "property-based testing: generated ORA archives against a reference compositor model", "Generated archives; pixels, offsets, opacities, order and labels of the result are compared.")

prop("C22", "Pages come out in order: slides, fragments, subsets, grids and raw PDFs",
     "render() produces one page for each fragment of each slide, slides in the order in which they were created (or in the order of select_slides), fragments in ascending order, with raw PDF pages at the place where they were added; each unit names its slide and fragment. "
     "slides_per_page=(A, B) puts the pages into grids of A columns and B rows, row by row, each page unscaled in a cell of the deck's size, the last grid possibly incomplete. "
     "slide_postprocessing gets the root boxes of the rendered slides, in order, before anything is drawn; empty decks and malformed arguments are rejected.",
     ["inputs", "histories", "configurations"],
     "all decks (any number of slides and fragments, raw PDFs), all selections and grids",
     "Sequences and groupings of any length; tests use up to six slides.",
     ["slides/slidedeck.py", "render/render.py", "slides/slide.py"],
     [("SlideDeck.render", "slides/slidedeck.py"), ("per_page_grouping", "render/render.py"), ("ExternPdfSlide", "slides/slide.py")],
     "property-based testing against a list model of the pages", "Every page carries a mark of its slide and fragment; order, cells and units are compared with a list model.")

prop("C23", "The written document contains exactly the rendered pages",
     "The PDF written by render() has exactly one page for each unit, in the same order and of the slide's size (96 pixels per inch), holding the export of that unit's drawing, and raw PDFs are included with all their pages; this holds for both PDF mergers and both backends. "
     "For other export types the returned list has one existing file per unit, in order, each in the requested format.",
     ["inputs", "configurations"],
     "all decks, page sizes, export types, mergers, backends and cache states",
     "Merging, caching of equal pages and ordering interact for every sequence of pages; tests check that a file exists.",
     ["slides/slidedeck.py", "render/pdfmerge.py", "render/render.py", "render/inkscape.py", "render/backends/cairo/backend.py"],
     [("SlideDeck.render", "slides/slidedeck.py"), ("PyPdfMerger, ExternalMerger", "render/pdfmerge.py"), ("SvgRenderUnit.export, ExportedRenderUnit.export", "render/render.py"), ("CairoRenderUnit.export", "render/backends/cairo/backend.py")],
     "property-based testing end to end: pages of the written PDF traced back to drawings", "The simulated Inkscape stamps each exported page with the digest of its drawing; real Inkscape is used on a small sample.",
     observe=("the PDF/PNG files written by render()",))

prop("C24", "Name policies keep slide names and slide order consistent",
     "Under 'unique' a second slide with a name already in use is rejected and the deck stays as it was, under 'replace' it takes the old slide's place in the registry (the old one is gone, the new one is last), and under 'ignore' all are kept; "
     "nameless slides are rejected only by 'replace', non-string names by 'unique' and 'replace', and unknown policies when the deck is created. "
     "Looking a slide up by name returns the first slide of that name that is in the deck, or None; the decorator names a slide after its function unless a name is given.",
     ["histories"],
     "all histories of creating slides in any way, with any names, under each policy, with raw PDFs in between",
     "A statement about histories of the registry; tests try two names.",
     ["slides/slidedeck.py", "slides/slide.py"],
     [("SlideDeck._apply_name_policy / get_slide_by_name / new_slide / slide", "slides/slidedeck.py")],
     "stateful property-based testing against a registry model", "Operation sequences against a list of names; rendered pages show which slides exist.",
     observe=("rendered pages", "get_slide_by_name"))

prop("C25", "The cache never serves stale output and never repeats finished work",
     "Whatever programs were run before in a cache directory, with pruning on or off, in the same or in other processes and with other decks, each render gives the same output as with an empty cache. "
     "Running an unchanged program again needs no further export and no further text measurement, a changed program exports only pages whose drawing is new, and with pruning exactly the known files that were not used since the program was started are removed.",
     ["histories"],
     "all histories of running (changed) programs over one cache directory, with prune_cache and save_cache on or off, changed Inkscape versions and settings",
     "A property of histories over a persistent directory; tests start with an empty one.",
     ["utils/cache.py", "render/backends/svg/backend.py", "slides/slidedeck.py", "render/render.py"],
     [("FsCache", "utils/cache.py"), ("InkscapeBackend query cache", "render/backends/svg/backend.py"), ("SlideDeck.render prune/save", "slides/slidedeck.py")],
     "stateful property-based testing: run histories, differential against an empty cache", "Histories of runs against one directory; outputs are compared with runs on a fresh one and the work done is read from the simulated Inkscape's log.",
     observe=("files written", "commands Inkscape received"),
     state=[("cache.* files, queries3.cache", "exported pages and text measurements", "cache directory")])

prop("C26", "A failed or killed run leaves nothing that breaks the next one",
     "If an export or a measurement fails, Inkscape dies, writing a cache file fails, or the whole process is killed at any moment, the failing run reports an error instead of writing a document, and a later run in the same directory (or a later render call of the same program with a working Inkscape) "
     "produces exactly the output it would have produced in an empty directory.",
     ["crash_points", "fault_sequences"],
     "all decks, each point at which Inkscape is asked for something, each kind of failure (no output, partial output, death, failing writes, kill of the whole process)",
     "The tests inject no faults.",
     ["utils/cache.py", "render/inkscape.py", "render/backends/svg/backend.py", "render/render.py"],
     [("FsCache.ensure", "utils/cache.py"), ("InkscapeBackend._save_query_cache / _load_query_cache", "render/backends/svg/backend.py"), ("InkscapeShell.wait_for_prompt", "render/inkscape.py")],
     "fault injection at generated crash points, differential against a clean run", "A simulated Inkscape fails, dies or kills its parent at a chosen command; file-size limits make writes fail at a chosen byte.",
     level="fault_enumeration", observe=("exit of the failing run", "files written by the next run"),
     state=[("cache.* files, queries3.cache", "exported pages and text measurements", "cache directory")])

prop("C27", "The dialogue with Inkscape is robust and each answer belongs to its question",
     "Each measurement is the answer to its own query on its own document, each exported file is the export of its own drawing, however many queries and exports share one Inkscape process and whatever additional lines or error output (of any amount) Inkscape prints. "
     "An answer that is not a number, a missing file or a terminated Inkscape is reported as an error and never waited for indefinitely.",
     ["fault_sequences", "histories"],
     "all sequences of queries and exports with noise, floods of warnings, garbage answers and deaths at any position",
     "The tests talk to a well-behaved process only.",
     ["render/inkscape.py", "render/backends/svg/query.py", "render/backends/svg/backend.py"],
     [("InkscapeShell.run_command / wait_for_prompt / run_query / convert_to_pdf", "render/inkscape.py")],
     "stateful property-based testing with a fault-injecting simulated Inkscape", "Sequences of queries and exports against the simulated Inkscape, whose answers are known exactly.",
     level="fault_enumeration", observe=("values returned and files written",))

prop("C28", "Lists number, label, order and indent their items correctly",
     "Items of a list and its sublists appear in the order they were added, one below another; an ordered item's label is the counters of its level and of all enclosing levels joined by dots, each counter starting at its start value and growing by one per item, and an unordered item's label is its bullet. "
     "Labels given as strings or functions are used for the list or item they were given to, a label and its item's content lie side by side with the requested gap, deeper levels are indented further, and box arguments reach the items they are meant for, "
     "with items shown from the current fragment on unless said otherwise.",
     ["inputs", "programs"],
     "all nestings of ul/ol/item calls in any order with any start, level, label, indent, padding and box arguments",
     "Counters depend on the whole building history; tests store five pictures.",
     ["ext/list.py"],
     [("ListBuilder.item / ul / ol / _create_box", "ext/list.py"), ("arabic_digit_render_fn", "ext/list.py")],
     "stateful property-based testing against a counter model", "Building histories against a model of counters; labels, contents and their places are read from the SVG.")

prop("C29", "Markdown is drawn with the structure and text of the document",
     "For a document of the supported subset, the headings, paragraphs, quotes, code blocks and list items appear in document order from top to bottom with exactly their text, bold, italic, links, headings and quotes in their md- styles, nested lists numbered and nested as in the document. "
     "Styles that the user defined before are respected, inline style commands in the text work, and nothing but a new child box is added to the given box.",
     ["inputs"],
     "all documents generated from the supported subset (nested lists, nested emphasis, code blocks in any language)",
     "Documents are unbounded trees; tests store one picture per construct.",
     ["ext/markdown.py", "ext/list.py"],
     [("markdown, build_*", "ext/markdown.py"), ("get_raw_text", "ext/markdown.py")],
     "grammar-based property testing: documents generated as trees and printed as Markdown", "The tree is printed as Markdown, rendered, and the drawn text with its styles and order compared with the tree; known finding: '}' inside emphasis.")

prop("C30", "The notebook view shows every fragment of a slide once and in order",
     "The HTML of a slide contains each of its fragments exactly once, in order, as the drawing (SVG) or picture (PNG) that render() gives for it, with controls and the right fragment count exactly if there is more than one; the controls of a view act on it alone. "
     "Producing it changes neither the deck, nor its drawings, nor files another render relies on.",
     ["inputs", "histories"],
     "all slides, both formats, all histories of viewing and rendering",
     "The tests check that some HTML is returned.",
     ["render/jupyter.py", "slides/slide.py"],
     [("render_slide_html, get_slide_repr_steps, get_javascript", "render/jupyter.py")],
     "property-based testing: parsed HTML against rendered units", "The HTML is parsed and its fragments compared with the units of the same slide.",
     observe=("returned HTML",))

prop("C31", "The Cairo backend paints what the drawing model says",
     "A PNG exported by the Cairo backend has the deck's size, and each of its pixels that lies clearly inside or outside of every shape has the colour of the topmost visible shape there, or is transparent where there is none. "
     "No attribute of a shape (colour, width, dashes, rotation) affects another one, and fragments, z-levels, view boxes and images are treated as in the Inkscape backend.",
     ["inputs"],
     "all slides of rectangles, ellipses, polygons, lines, paths and images with any geometry, rotation, order and fragments",
     "Pixels of compositions of shapes; tests compare a few stored pictures, if cairo is configured.",
     ["render/backends/cairo/rcontext.py", "render/backends/cairo/draw.py", "render/backends/cairo/shapes.py", "render/backends/cairo/backend.py"],
     [("CairoRenderingContext.draw_*", "render/backends/cairo/rcontext.py"), ("fill_stroke_shape, transform, apply_viewbox", "render/backends/cairo/draw.py"), ("CairoRenderUnit.export", "render/backends/cairo/backend.py")],
     "property-based testing: sampled pixels against an analytic painter's model", "An analytic point-in-shape model predicts sampled pixels; pixels near an edge are not judged.",
     observe=("exported PNG files",))

prop("C32", "Both backends draw the same slide",
     "A program that uses what both backends support (opaque colours among it) gives the same fragments with both, and for content without text the Cairo backend's picture of each fragment agrees with what Inkscape makes of the SVG of the other backend, up to antialiasing. "
     "With text, the sections of a text appear in the same colours, sizes and lines at the same places, up to the difference of the measured widths, boxes of lines and sections surround the same text, and each character is drawn once and can be read back from the PDF.",
     ["programs", "inputs"],
     "all programs over the common drawing features",
     "Tests run each program under one backend and compare it with stored output.",
     ["render/backends/cairo/rcontext.py", "render/backends/cairo/draw.py", "render/backends/cairo/svg.py", "render/backends/svg/draw.py", "render/backends/svg/rcontext.py", "render/backends/cairo/text.py"],
     [("CairoRenderingContext", "render/backends/cairo/rcontext.py"), ("SvgRenderingContext", "render/backends/svg/rcontext.py"), ("render_svg", "render/backends/cairo/svg.py")],
     "differential property-based testing of the two backends", "The SVG of one backend is rasterised by the real Inkscape and compared with the PNG of the other.",
     observe=("PNG of the Cairo backend", "SVG of the Inkscape backend"))

prop("C33", "Debug boxes only add outlines",
     "With debug_boxes a slide's drawing is exactly the drawing without it plus one outline and one label for each visible box: the outline has the box's inner area, the label its name and size. "
     "Layout, fragments and all other items are unchanged.",
     ["inputs", "programs"],
     "all decks with and without debug_boxes",
     "It relates two runs; tests store one picture.",
     ["boxtree/box.py", "slides/slidedeck.py"],
     [("Box.get_painters / _debug_paint", "boxtree/box.py")],
     "metamorphic property-based testing", "The drawing with debug boxes minus outlines and labels must equal the drawing without.")

prop("C34", "LaTeX snippets are compiled once, sized, scaled and kept apart",
     "latex() compiles exactly header, text and tail, draws the result at its natural size times scale centred in its box (which it makes at least that large), and compiles the same source only once per cache. "
     "Identifiers inside different snippets never clash and all references in a snippet still point to its own definitions; a failing compiler is reported and leaves no cache entry.",
     ["inputs", "histories"],
     "all snippets, scales, headers and box geometries, all sequences of snippets over one cache, compiler failures",
     "LaTeX is not run by the reliable tests at all.",
     ["ext/latex.py", "render/backends/svg/utils.py", "utils/cache.py"],
     [("latex, _draw, _render_latex", "ext/latex.py"), ("rename_ids", "render/backends/svg/utils.py"), ("FsCache.get", "utils/cache.py")],
     "property-based testing with simulated compilers", "pdflatex and pdf2svg are replaced by stand-ins that record what they are given and produce generated SVG.")

prop("C35", "The same program gives the same output everywhere",
     "Built and rendered by another process with the same libraries, a program gives the same drawings, measurements, exports and documents, and the cache files have the same names and contents: "
     "the hash seed, the locale, the working and temporary directories, the time zone, the file mode mask and options of Python such as -O make no difference.",
     ["programs", "configurations"],
     "all decks using every drawing feature, with texts inside and outside of ASCII, in processes with any environment",
     "The tests run in one process with one environment, and a cache is only useful if later processes find the same names in it.",
     ["render/inkscape.py", "utils/cache.py", "slides/slidedeck.py", "render/backends/svg/draw.py", "text/textstyle.py", "ext/latex.py"],
     [("svg_file_input", "render/inkscape.py"), ("FsCache._get_filename, get", "utils/cache.py"), ("SvgRenderUnit.write_debug", "render/render.py")],
     "differential property-based testing over processes",
     "Random decks are built by servers with other hash seeds, locales, directories and Python options; all output is compared with that of the generating process.")

prop("C36", "Files are found and read as they are when the program names them",
     "An image shows the content that its file, stream or bytes had when image() was called: later changes, renaming or removal of the file and changes of the working directory do not alter slides already built, "
     "and an image added later never shows old content or another file's, whichever names and directories were used before. A missing file is rejected. "
     "Relative names of raw PDFs, cache directories and outputs refer to the directory that is current when they are named.",
     ["histories", "inputs"],
     "all histories of writing, renaming and deleting files, changing the working directory, adding images of all formats, adding raw PDFs and rendering, over decks with shared or separate caches",
     "Tests add each image once from a file that never changes.",
     ["boxtree/boxmixin.py", "render/ora.py", "utils/cache.py", "slides/slidedeck.py", "slides/slide.py", "render/backends/backend.py"],
     [("image, _image_bitmap, _image_ora, _image_svg", "boxtree/boxmixin.py"), ("FsCache.ensure_by_file", "utils/cache.py"), ("SlideDeck.add_pdf", "slides/slidedeck.py")],
     "stateful model-based property-based testing", "Histories of file operations and images are compared with a model of what each file contained.")

prop("C37", "A PPTX export has one full-size picture for each fragment",
     "export_pptx() saves one presentation under the given name, with one slide for each fragment of each rendered slide, in the order of render(); each slide is made on the layout named 'Blank' and holds exactly one picture, "
     "that of its fragment as it is at the time of the export, covering the whole slide. Arguments of render() such as select_slides and slide_postprocessing are respected; a template without such a layout is rejected and nothing is saved.",
     ["inputs", "histories"],
     "all decks on both backends, selections and postprocessings, templates with any layouts, and repeated exports of a growing deck",
     "Nothing tests the export, python-pptx is not even installed.",
     ["ext/export.py", "slides/slidedeck.py", "render/render.py"],
     [("export_pptx", "ext/export.py"), ("SlideDeck.render", "slides/slidedeck.py")],
     "property-based testing with a simulated python-pptx", "A stand-in for python-pptx records layouts, pictures, places and files; pictures are identified by their pixels or digests.")

prop("C38", "Placeholders fill their place and show the right name",
     "todo_placeholder() adds to its box a framed area that fills the box (or an equal share of it next to others) up to a narrow border and shows, centred, 'TODO' and, below it, the given name or, without one (None), the name of the box if it has one; an empty given name shows nothing there. "
     "It is drawn exactly in the fragments of its box, and returns the new box, to which further content can be added.",
     ["inputs"],
     "all boxes (places, paddings, directions, selectors, names, slides with names), given, inherited, empty and missing names, any number of placeholders",
     "Nothing tests placeholders.",
     ["ext/todo.py", "boxtree/box.py", "boxtree/boxmixin.py"],
     [("todo_placeholder", "ext/todo.py"), ("Box.name", "boxtree/box.py"), ("BoxMixin.fbox", "boxtree/boxmixin.py")],
     "property-based testing: random hosts against a model", "Frames, texts and fragments are compared with a model of the boxes.")

prop("C39", "Threads may share a cache of files",
     "When several threads call FsCache.ensure() or ensure_by_file() at the same time, in whatever interleaving, each file is made at most once at a time and only once if making it succeeds; every call that waits (the default) "
     "returns the path of the complete file for its data and type; no call raises unless a constructor of the same file failed; no thread waits forever, and a failure does not prevent a later call from making the file.",
     ["schedules", "fault_sequences"],
     "all interleavings of the executed lines of the cache in several threads, all mixtures of equal and different contents, constructors that take time or fail, and files from earlier runs",
     "Tests use the cache from one thread.",
     ["utils/cache.py"],
     [("FsCache.ensure", "utils/cache.py"), ("FsCache.ensure_by_file", "utils/cache.py")],
     "property-based testing with generated schedules", "Threads run one at a time; generated schedules decide at every executed line of the cache which one continues.")
prop("C40", "Pages made by Inkscape show what was drawn",
     "With a real Inkscape, each page of a rendered PDF (merged in either way, alone or in a grid, with raw PDFs between) and each PNG has the right size and place in the document, and each of its points that lies clearly inside or outside of every shape has the colour of the topmost visible shape, "
     "PNGs being transparent where nothing is drawn; images keep their colours whatever other images are on the page. Texts are drawn in the colours of their sections, boxes sized by a text enclose its ink, and boxes of sections and lines enclose theirs; "
     "texts of a PDF can be read back unless they were converted to paths.",
     ["programs", "inputs", "configurations"],
     "all slides of shapes, images and texts, grids, raw PDFs, both mergers, with and without conversion of text to paths",
     "The commands that Elsie gives to Inkscape and what it reads from it matter only in pictures; tests compare SVG.",
     ["render/inkscape.py", "render/backends/svg/draw.py", "render/backends/svg/rcontext.py", "render/backends/svg/backend.py", "render/backends/svg/utils.py", "render/render.py", "text/textboxitem.py"],
     [("InkscapeShell.convert_to_pdf, run_query", "render/inkscape.py"), ("draw_text, draw_bitmap", "render/backends/svg/draw.py"), ("per_page_grouping", "render/render.py"), ("make_ids_unique", "render/backends/svg/utils.py"), ("TextBoxItem", "text/textboxitem.py")],
     "property-based testing with the real Inkscape: sampled points of rendered pages against an analytic painter's model, ink of texts against their boxes", "Pages are rasterised by poppler or exported as PNG by Inkscape and compared with the model of C31; the extents of coloured ink are compared with those of filled boxes.",
     observe=("PDF documents", "PNG files"))

prop("C41", "Debug mode keeps the drawing of each page and changes nothing else",
     "A deck made with debug=True renders the same drawings, documents, exports and cache files as the same deck without it; in addition the cache directory holds, after a rendering, one SVG file for each drawn page of it (raw PDF pages have none, nor have the pages of the Cairo backend), with exactly the drawing of that page, "
     "also when slides were replaced by others of the same name and when pages are arranged in grids.",
     ["programs", "configurations", "histories"],
     "all decks with fragments, replaced slides, raw PDFs, subsets, grids, exports, both backends and both mergers",
     "Tests never use the debug mode.",
     ["render/render.py", "slides/slidedeck.py", "slides/slide.py", "render/pdfmerge.py"],
     [("SvgRenderUnit.write_debug", "render/render.py"), ("SlideDeck.render", "slides/slidedeck.py"), ("_apply_name_policy", "slides/slidedeck.py")],
     "metamorphic property-based testing", "Generated decks are rendered with and without the debug mode and compared; the files of drawings are compared with the pages.")

prop("C42", "Elsie blocks of the documentation show what their code draws",
     "The MkDocs plugin for Elsie (docs/mkdocs-elsie-plugin) returns each page with all of its lines in order, where a fenced block of language 'elsie' is shown as a block of language 'python' with the same fence, indentation and content, followed (unless type=lib) by one view of the last slide that its code makes: "
     "exactly the drawings (or pictures, by render_format) of all fragments of that slide when the code, less its skipped lines and its common indentation, runs after the library blocks (type=lib) that precede it on the same page, with the requested width, height, border and debug boxes, in the documentation directory. "
     "Other blocks (also nested and unclosed ones) and prose are unchanged; blocks and pages do not see each other's names; errors of a block are reported; the working directory is restored in any case. The pages of the user guide are processed without an error.",
     ["inputs", "programs", "histories"],
     "all pages of prose, library blocks, Elsie blocks with all parameters and other blocks, in both formats, and the documentation itself",
     "Nothing tests the plugins.",
     ["../docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py", "render/jupyter.py"],
     [("iterate_fences, parse_fence_header, elsie_to_python_header", "../docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py"), ("render_slide, trim_indent, change_cwd", "../docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py"), ("ElsiePlugin.on_page_markdown", "../docs/mkdocs-elsie-plugin/mkdocs_elsie_plugin/__init__.py")],
     "property-based testing: generated pages against a model that runs the code alone", "Lines, drawings, pictures and the working directory are compared with a model of the page.")
prop("C43", "API links of the documentation lead to their keys' pages",
     "The MkDocs plugin for Nedoc (docs/mkdocs-nedoc-plugin) replaces the target of each link whose text is code, [`text`](key), by the address of that key in apidoc/map.json below the site's address (with or without a slash at its end, / without one), for any number of links in a line, and changes nothing else; "
     "a key that is not in the map is reported.",
     ["inputs"],
     "all maps, addresses and pages of text, other links, code and API links",
     "Nothing tests the plugins.",
     ["../docs/mkdocs-nedoc-plugin/mkdocs_nedoc_plugin/__init__.py"],
     [("NedocPlugin.on_config, on_page_markdown", "../docs/mkdocs-nedoc-plugin/mkdocs_nedoc_plugin/__init__.py")],
     "property-based testing against a model", "Each line is compared with the line that the model of its parts gives.")

NOT_APPLICABLE = []


def main():
    done = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "checks", "props")) if f.startswith("c") and f.endswith(".py")}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["row"], ensure_ascii=False) + "\n")
    m = dict(
        version=1,
        setup_cmd="/opt/venv/bin/python -B checks/selfcheck.py",
        checks=[dict(property=p["row"]["id"], quick_cmd="%s %s --tier quick" % (PY, p["row"]["id"]),
                     thorough_cmd="%s %s --tier thorough" % (PY, p["row"]["id"]),
                     technique=p["technique"], level=p["level"], level_note=p["note"])
                for p in P if p["row"]["id"] in done],
        not_applicable=NOT_APPLICABLE + [dict(property=p["row"]["id"], reason="check not built yet") for p in P if p["row"]["id"] not in done],
    )
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print(len(P), "properties,", len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")


main()
