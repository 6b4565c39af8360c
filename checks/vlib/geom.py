"""Affine maps and SVG transforms."""
import math
import re

from .core import Violation

ID = (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)  # a b c d e f: x' = a x + c y + e, y' = b x + d y + f


def mul(m, n):
    """First n, then m."""
    a, b, c, d, e, f = m
    p, q, r, s, t, u = n
    return (a * p + c * q, b * p + d * q, a * r + c * s, b * r + d * s, a * t + c * u + e, b * t + d * u + f)


def apply(m, p):
    return (m[0] * p[0] + m[2] * p[1] + m[4], m[1] * p[0] + m[3] * p[1] + m[5])


def translate(x, y=0.0):
    return (1.0, 0.0, 0.0, 1.0, x, y)


def scale(x, y=None):
    return (x, 0.0, 0.0, x if y is None else y, 0.0, 0.0)


def rotate(deg, cx=0.0, cy=0.0):
    a = math.radians(deg)
    r = (math.cos(a), math.sin(a), -math.sin(a), math.cos(a), 0.0, 0.0)
    return mul(translate(cx, cy), mul(r, translate(-cx, -cy)))


PART = re.compile(r"\s*,?\s*(\w+)\s*\(([^)]*)\)")


def parse_transform(text):
    m = ID
    if not text:
        return m
    pos = 0
    while pos < len(text.rstrip()):
        part = PART.match(text, pos)
        if part is None:
            raise Violation("malformed transform %r" % text)
        pos = part.end()
        try:
            v = [float(x) for x in re.split(r"[\s,]+", part.group(2).strip())]
            fn = {"translate": translate, "scale": scale, "rotate": rotate, "matrix": lambda *q: tuple(q)}[part.group(1)]
            m = mul(m, fn(*v))
        except (KeyError, ValueError, TypeError):
            raise Violation("malformed transform %r" % text)
    return m


def same(m, n, tol=1e-6):
    return all(abs(a - b) <= tol * (1 + abs(a) + abs(b)) for a, b in zip(m, n))


def near(p, q, tol=1e-6):
    return all(abs(a - b) <= tol * (1 + abs(a) + abs(b)) for a, b in zip(p, q))
