"""A notebook page: HTML parsed to elements, its scripts run by node over a minimal document."""
import json
import os
import shutil
import subprocess
from html.parser import HTMLParser

from . import boot

VOID = {"img", "br", "hr", "input", "link", "meta"}


class Element:
    def __init__(self, tag, parent, attrs):
        self.tag = tag
        self.parent = parent
        self.attrs = {k: v or "" for k, v in attrs}
        self.classes = self.attrs.get("class", "").split()
        self.children = []
        self.source = ""  # of what is inside
        self.text = ""

    def all(self):
        for c in self.children:
            yield c
            yield from c.all()

    def find(self, cls):
        return [e for e in self.all() if cls in e.classes]


class Page(HTMLParser):
    def __init__(self, html):
        super().__init__(convert_charrefs=False)
        self.root = Element("#root", None, [])
        self.at = self.root
        self.problems = []
        self.feed(html)
        self.close()
        if self.at is not self.root:
            self.problems.append("<%s> is not closed" % self.at.tag)

    def put(self, source, text=""):
        e = self.at
        while e is not None:
            e.source += source
            e.text += text
            e = e.parent

    def handle_starttag(self, tag, attrs):
        self.put(self.get_starttag_text())
        e = Element(tag, self.at, attrs)
        self.at.children.append(e)
        if tag not in VOID:
            self.at = e

    def handle_startendtag(self, tag, attrs):
        self.put(self.get_starttag_text())
        self.at.children.append(Element(tag, self.at, attrs))

    def handle_endtag(self, tag):
        if self.at.tag != tag:
            self.problems.append("</%s> closes <%s>" % (tag, self.at.tag))
            return
        name = self.at
        self.at = self.at.parent
        self.put("</%s>" % name.tag)

    def handle_data(self, data):
        self.put(data, data)

    def handle_entityref(self, name):
        self.put("&%s;" % name, "&%s;" % name)

    def handle_charref(self, name):
        self.put("&#%s;" % name, "&#%s;" % name)

    def handle_comment(self, data):
        self.put("<!--%s-->" % data)

    def handle_pi(self, data):
        self.put("<?%s>" % data)


class Node:
    def __init__(self):
        self.process = subprocess.Popen([shutil.which("node"), os.path.join(boot.CHECKS, "vlib", "dom.js")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, encoding="utf-8")

    def verif_close(self):
        self.process.kill()

    def ask(self, req):
        self.process.stdin.write(json.dumps(req) + "\n")
        self.process.stdin.flush()
        return json.loads(self.process.stdout.readline())


def node(env):
    n = env.shared.get("node")
    if n is None or n.process.poll() is not None:
        n = env.shared["node"] = Node()
    return n


def play(env, page, clicks):
    """Run the scripts of the page and click the elements; returns (elements, answer)."""
    elements = [e for e in page.root.all()]
    number = {id(e): i for i, e in enumerate(elements)}
    req = {
        "elements": [{"tag": e.tag, "parent": number.get(id(e.parent)), "classes": e.classes, "id": e.attrs.get("id", ""), "attrs": e.attrs, "text": e.text} for e in elements],
        "scripts": [e.text for e in elements if e.tag == "script"],
        "clicks": [number[id(e)] for e in clicks],
    }
    return number, node(env).ask(req)
