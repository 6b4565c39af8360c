"""Source of known_findings.jsonl (run it in /verif after editing; no check runs it)."""
import json
K=[
 dict(property="C02",status="known",id="C02-forward-coordinate",case="corpus/C02/known-forward.json",message="a dynamic coordinate of a box in a later branch",
  what="a box whose coordinate refers to a box of a branch that is laid out later makes rendering fail (AttributeError)"),
 dict(property="C09",status="known",id="C09-variant-of-later-lines",case="corpus/C09/known-variant.json",message="variant of '2' in line 1 is None, expected 'tabular-nums'",
  what="variant_numeric of the base style applies only to the first line of a text (the stored output of existing tests contains this)"),
 dict(property="C14",status="known",id="C14-section-within-token",case="corpus/C14/known-mid-token.json",message="width of inline_box",
  what="inline_box of a section of highlighted code that starts within a token and outlasts it covers only the part up to the end of the token"),
 dict(property="C40",status="known",id="C40-style-sheets",case="corpus/C40/known-css.json",message="pixel (6, 32) of fragment 1 is (255, 255, 0, 255), expected (0.0, 0.0, 255.0, 255.0)",
  what="rules of a <style> element of an SVG image also apply to the other images and shapes of the page, as images are drawn into one document"),
 dict(property="C29",status="known",id="C29-brace-in-emphasis",case="corpus/C29/known-brace.json",message="text [['a', ' ', 'x', ' ', 'c', 'd', ' ', 'y', '}', ' ', 'z']]",
  what="a literal '}' within Markdown emphasis ends the style of the emphasis early"),
 dict(property="C29",status="known",id="C29-after-nested-list",case="corpus/C29/known-after-nested.json",message="label 'c', expected '-'",
  what="Markdown blocks that follow a nested list in the same list item are drawn above the nested list"),
]
F=[("C02","49b1453","'NN%'/'[NN%]' y positions in horizontal boxes were resolved against the width of the parent"),
("C09","efebf5f","'~~' was not a literal '~'"),
("C09","5d3b1dd","inline sections without a style were not continued on the next line of SVG text"),
("C09","e4177bf","the priority of the enclosing style was lost when an inline style ended"),
("C09","d750483","bold=False and italic=False did not override the enclosing style"),
("C16","8796fb0","apostrophes in attribute values (file names, colours, fonts) made the SVG malformed"),
("C12","35e92f0","rendering twice scaled a scale_to_fit text from its already scaled size"),
("C20","369acdb","'**1' as the only label of an image was not hidden after the first fragment"),
("C20","8b6addd","text following a hidden element of an image disappeared with it"),
("C24","2e4375f","creating a slide after a raw PDF page raised under the policies 'unique' and 'replace'"),
("C22","d85465a","slide_postprocessing raised in decks with raw PDF pages"),
("C25","f43c12a","a cache file removed after start was taken for present"),
("C26","3930971","an incomplete export stayed in the cache under its final name"),
("C26","16f16fe","a kill while the query cache was written left a broken query cache"),
("C25","8f78b38","rendering the same deck again dropped its measurements from the query cache"),
("C25","7ce723b","exports with and without text_to_path shared cache entries"),
("C27","58ea291","a terminated Inkscape was waited for forever"),
("C27","08db9e1","error output of Inkscape blocked the dialogue once the pipe was full"),
("C31","1be0253","dashes of an ellipse leaked to the shapes drawn after it (Cairo)"),
("C31","9e890bf","translucent pixels in PNG exports had wrong colours (Cairo)"),
("C32","bb9003a","inline_box of a nested section had the extent of the outermost one (Cairo)"),
("C04","4e1e59a","size 'fill(2)))' was accepted"),
("C34","8c18574","references to ids of LaTeX images were renamed incompletely, and parts of longer ids were renamed"),
("C34","2ca22c2","LaTeX was scaled to its box by the Cairo backend"),
("C28","ebe1c19","a nested list starting at 0 started at 1"),
("C02","0796c6c","a filling box with an explicit position on the main axis did not fill its parent"),
("C13","f8e7c5d","code() with inline styles around leading or trailing newlines raised"),
("C13","2c2dcee","tokens without a style of their own were drawn without the style of their parent token"),
("C21","38cb0d8","OpenRaster attributes that may be left out were required"),
("C21","921fde9","black pixels of OpenRaster layers without an alpha channel were dropped"),
("C17","afa86fc","a rectangle with one zero corner radius was drawn with round corners (SVG)"),
("C29","bfb8b16","characters escaped by a backslash in Markdown were dropped"),
("C29","23a7a81","lists of Markdown quotes inside list items were drawn outside of the quotes"),
("C29","0589d0d","underlined (setext) headings of Markdown were not drawn"),
("C13","eb85c84","crossing inline styles of highlighted code were reopened in reverse order"),
("C31","7f97e42","SVG images ignored the view box (Cairo)"),
("C30","273c6a4","an ellipse in an empty box made rendering fail (Cairo)"),
("C31","2535e1e","S after S reflected the wrong control point (Cairo)"),
("C32","e492434","the first corner of polygons was not joined (Cairo)"),
("C31","bee1f75","only the first points of path commands with repeated points were drawn (Cairo)"),
("C31","c711853","two of the round corners of a rectangle were misshaped (Cairo)"),
("C31","92c06f2","a stroked ellipse was connected to the image or text drawn before it (Cairo)"),
("C32","f985af4","a rectangle with one zero corner radius had round corners in Inkscape (SVG)"),
("C32","85e2fee","sharp corners were mitred beyond the limit of SVG (Cairo)"),
("C32","4be565e","the height of text lines was reduced by the resolution (Cairo)"),
("C32","ca331f7","the line spacing depended on the view box and not on the scale of the text (Cairo)"),
("C32","9d16427","bitmaps in SVG and OpenRaster images were not drawn (Cairo)"),
("C32","7298478","magnified bitmaps faded out at their edges (Cairo)"),
("C32","5980e8c","lines a bit wider than measured were wrapped (Cairo)"),
("C19","bd1349b","with one given dimension, the other was computed from the box's size with its padding instead of its inner area"),
("C19","b4a96d8","inches and picas were taken as pixels in the sizes of SVG images"),
("C31","32e2b01","SVG images with physical units were drawn 4/3 too large in PNG exports (Cairo)"),
("C35","cddfe34","texts and files with characters outside of the locale's encoding could not be measured, cached or written"),
("C27","1b98a63","a message of Inkscape in another encoding than the locale's raised UnicodeDecodeError"),
("C18","4249431","the arrow of a path that ends with T pointed from the previous point and not along the path"),
("C36","c552ec9","an image whose file had changed, or another one of the same relative name, was drawn as before"),
("C39","c973489","two threads that asked for the same file at the same time both made it, and one of them failed with KeyError"),
("C19","fb961e0","an SVG image with the same ids as an earlier one was drawn with the gradients, clip paths and symbols of the earlier one"),
("C09","87933cb","variant_numeric of inline styles was ignored"),
("C11","96493da","the variant_numeric proportional-nums was rejected, and the documented spelling of it had no effect"),
("C41","cbc7058","after a slide was replaced by one of the same name, the drawing of a slide in debug mode overwrote the drawing of another"),
("C42","89f2475","an indented Elsie block with a blank line failed with IndentationError"),
("C42","cb769b2","an indented Elsie block fenced by backticks was not rendered"),
("C42","04cf73b","the content of a block that is not closed was removed from the page"),
("C23","e7ca591","a file stayed open for each page of a document, documents of many pages failed with 'Too many open files'"),
]
with open('known_findings.jsonl','w') as f:
    for k in K: f.write(json.dumps(k)+"\n")
    for p,c,w in F:
        f.write(json.dumps(dict(property=p,status="fixed",id="fix-"+c,what="fixed: property=%s %s %s"%(p,c,w)))+"\n")
