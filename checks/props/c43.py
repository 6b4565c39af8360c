"""C43: links to the API documentation."""
import json
import os

from hypothesis import strategies as st

from vlib import plugins
from vlib.core import judged, require

ID = "C43"
RULE = ("1-3 pages of 0-8 lines made of text, other links, code, images and 0-3 API links per line, for a map of 0-6 keys (among them keys that are prefixes of each other, and characters outside of ASCII) and any form of the site's address; "
        "every API link must get the address of its key and nothing else may change, an unknown key has to be reported; non-trivial: two API links in one line, or an unknown key")
ASSUMPTIONS = ["a stand-in for MkDocs, which cannot be imported here", "links do not span lines, keys and texts contain no brackets, parentheses of links or backticks"]
CASES = {"quick": 12000, "thorough": 200000}

KEYS = ["elsie.box.Box", "elsie.box.Box.rect", "elsie.box.Bo", "elsie", "a", "b-c_d", "\u010d.\u03bb", "elsie.boxtree.box"]
URLS = ["elsie.box.html", "elsie.box.html#f_rect", "a/b/c.html?x=1&y=2", "x.html#\\1", "\u03bb.html", "index.html", "elsie.box.Box"]
TEXT = ["Use ", " and ", "", " `code` ", "**bold** ", "\u00e9 \u03bb ", "* item ", "    ", "[text](other.md) ", "[text](elsie.box.Box) ", "![image](imgs/a.png) ", "(x) ", "[y] ", "elsie.box.Box ", "`a](b)` ", "#", ". "]
NAMES = ["Box", "box.rect()", "a b", "", "x](y", "\u03bb", "slide.p(1, 2)", "SlideDeck"]


@st.composite
def strategy_(draw, tier):
    keys = draw(st.lists(st.sampled_from(KEYS), max_size=6, unique=True))
    link = st.fixed_dictionaries({"name": st.sampled_from([n for n in NAMES if n and "]" not in n]), "key": st.integers(0, 99), "unknown": st.integers(0, 40).map(lambda x: x == 0)})
    line = st.lists(st.one_of(st.sampled_from(TEXT), st.sampled_from(TEXT), link), max_size=7)
    return {"map": {k: draw(st.sampled_from(URLS)) for k in keys}, "site": draw(st.sampled_from(["https://spirali.github.io/elsie/", "https://x.org", "https://x.org/a/b", "", None, "/"])),
            "pages": draw(st.lists(st.lists(line, max_size=8 if tier == "quick" else 20), min_size=1, max_size=3)), "file": draw(st.integers(0, 15)) > 0}


def strategy(tier):
    return strategy_(tier)


def check(spec, env):
    labels = set()
    docs = env.fresh_dir("docs")
    try:
        known = sorted(spec["map"])
        if spec["file"]:
            os.mkdir(os.path.join(docs, "apidoc"))
            with open(os.path.join(docs, "apidoc", "map.json"), "w", encoding="utf-8") as f:
                json.dump(spec["map"], f, ensure_ascii=True)
        else:
            known = []
            labels.add("no map")
        config = {"docs_dir": docs}
        if spec["site"] is not None:
            config["site_url"] = spec["site"]
        with judged("the plugin"):
            plugin = plugins.make("nedoc", {})
            plugin.on_config(config)
        site = spec["site"] or "/"
        if not site.endswith("/"):
            site += "/"
        for n, page in enumerate(spec["pages"]):
            source, want, unknown = [], [], False
            for line in page:
                a = b = ""
                count = 0
                for x in line:
                    if isinstance(x, str):
                        a += x
                        b += x
                        continue
                    count += 1
                    if x["unknown"] or not known:
                        key, unknown = "elsie.unknown%d" % x["key"], True
                        address = key
                    else:
                        key = known[x["key"] % len(known)]
                        address = site + "apidoc/" + spec["map"][key]
                    a += "[`%s`](%s)" % (x["name"], key)
                    b += "[`%s`](%s)" % (x["name"], address)
                source.append(a)
                want.append(b)
                if count >= 2:
                    labels |= {"several links in a line", "nontrivial"}
            if unknown:
                labels |= {"unknown key", "nontrivial"}
                try:
                    plugin.on_page_markdown("\n".join(source), None, config)
                except Exception:
                    continue
                require(False, "page %d has an unknown key, which was not reported: %r", n, source)
            with judged("a page"):
                got = plugin.on_page_markdown("\n".join(source), None, config)
            got = got.split("\n")
            while want and not want[-1]:
                want.pop()
            while got and not got[-1]:
                got.pop()
            require(len(got) == len(want), "page %d has %d lines instead of %d", n, len(got), len(want))
            for g, w, s in zip(got, want, source):
                require(g == w, "the line %r became %r instead of %r", s, g, w)
    finally:
        env.drop(docs)
    return sorted(labels)
