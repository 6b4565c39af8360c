"""Access to the system under test through its public interface."""
import os
import xml.etree.ElementTree as ET

from . import boot
from .core import Violation, judged, require

SVG = "{http://www.w3.org/2000/svg}"
XLINK = "{http://www.w3.org/1999/xlink}"
INKNS = "{http://www.inkscape.org/namespaces/inkscape}"


class _Shell:
    """Keeps one fake Inkscape per worker (starting one per case would dominate the run time)."""

    def __init__(self, shell):
        self.shell = shell

    def verif_close(self):
        self.shell.process.kill()


def shell(env):
    s = env.shared.get("shell")
    if s is None or s.shell.process.poll() is not None:
        from elsie.render.inkscape import InkscapeShell

        with judged("starting the Inkscape shell"):
            s = _Shell(InkscapeShell(boot.FAKE_INKSCAPE))
        env.shared["shell"] = s
    return s.shell


def reset_shell(env):
    s = env.shared.pop("shell", None)
    if s is not None:
        try:
            s.verif_close()
        except Exception:
            pass


def make_deck(env, cache_dir=None, backend=None, **kwargs):
    """A SlideDeck on the (fake) Inkscape backend or on the Cairo backend."""
    import elsie
    from elsie.render.backends import CairoBackend, InkscapeBackend

    if cache_dir is None:
        cache_dir = case_dir(env)
    if backend == "cairo":
        b = CairoBackend(cache_dir=cache_dir)
    else:
        b = InkscapeBackend(inkscape=shell(env), cache_dir=cache_dir)
    kwargs.setdefault("name_policy", "ignore")
    return elsie.SlideDeck(backend=b, cache_dir=cache_dir, **kwargs)


def case_dir(env):
    """One cache directory for all the cases that do not look at the cache; emptied for each."""
    d = os.path.join(env.root, "case-cache")
    os.makedirs(d, exist_ok=True)
    for name in os.listdir(d):
        os.unlink(os.path.join(d, name))
    return d


def render_units(deck, **kw):
    kw.setdefault("save_cache", False)
    kw.setdefault("prune_cache", False)
    return deck.render(output=None, return_units=True, **kw)


def parse_svg(text):
    try:
        return ET.fromstring(text)
    except ET.ParseError as e:
        raise Violation("the SVG is not well-formed XML: %s; %s" % (e, context(text, e)))


def context(text, e):
    try:
        line, col = e.position
        return repr(text.splitlines()[line - 1][max(0, col - 60): col + 40])
    except Exception:
        return ""


def svgs(deck, **kw):
    return [parse_svg(u.get_svg()) for u in render_units(deck, **kw)]


def style_of(e):
    out = {}
    for part in (e.get("style") or "").split(";"):
        part = part.strip()
        if not part:
            continue
        require(":" in part, "malformed style %r", e.get("style"))
        k, v = part.split(":", 1)
        require(k.strip() not in out, "style %r sets %s twice", e.get("style"), k)
        out[k.strip()] = v.strip()
    return out


def local(e):
    return e.tag.split("}")[-1]


def fl(e, name):
    v = e.get(name)
    if v is None:
        raise Violation("<%s> has no attribute %s" % (local(e), name))
    try:
        return float(v)
    except ValueError:
        raise Violation("<%s %s=%r> is not a number" % (local(e), name, v))


def rect_of(e):
    return tuple(fl(e, n) for n in ("x", "y", "width", "height"))


def colour(i):
    """A distinct colour per index, never used otherwise."""
    return "#%06x" % (0x100000 + i)


def colour_rects(root):
    """Fill colour -> geometry of the <rect> elements directly below the root, with multiplicity."""
    out = {}
    for e in root:
        if local(e) == "rect":
            out.setdefault(style_of(e).get("fill"), []).append(rect_of(e))
    return out
