"""Which points a shape covers: exact geometry, independent of any drawing library.

A Shape answers +1 (the point is covered whatever the antialiasing), -1 (it is not) or 0 (close to an edge, or
a corner whose form is left to the backend).  Geometry is given in device units.
"""
import math

from . import geom

EDGE = 1.1


class CP(tuple):
    """End point of a segment that stands for a part of a curve."""


def cubic(p0, p1, p2, p3, n=48):
    out = []
    for i in range(1, n + 1):
        t = i / n
        u = 1 - t
        a, b, c, d = u * u * u, 3 * u * u * t, 3 * u * t * t, t * t * t
        out.append(CP((a * p0[0] + b * p1[0] + c * p2[0] + d * p3[0], a * p0[1] + b * p1[1] + c * p2[1] + d * p3[1])))
    return out


def quadratic(p0, p1, p2, n=40):
    out = []
    for i in range(1, n + 1):
        t = i / n
        u = 1 - t
        out.append(CP((u * u * p0[0] + 2 * u * t * p1[0] + t * t * p2[0], u * u * p0[1] + 2 * u * t * p1[1] + t * t * p2[1])))
    return out


def ellipse(cx, cy, rx, ry, n=72):
    return [CP((cx + rx * math.cos(2 * math.pi * i / n), cy + ry * math.sin(2 * math.pi * i / n))) for i in range(n + 1)]


def rectangle(x, y, w, h, rx=0, ry=0):
    rx, ry = min(rx, w / 2), min(ry, h / 2)
    if rx <= 0 or ry <= 0:
        return [(x, y), (x + w, y), (x + w, y + h), (x, y + h), (x, y)]
    out = [(x + rx, y)]
    for cx, cy, start in ((x + w - rx, y + ry, -90), (x + w - rx, y + h - ry, 0), (x + rx, y + h - ry, 90), (x + rx, y + ry, 180)):
        for i in range(13):
            a = math.radians(start + 90 * i / 12)
            out.append(CP((cx + rx * math.cos(a), cy + ry * math.sin(a))) if i else (cx + rx * math.cos(a), cy + ry * math.sin(a)))
    return out


def path(commands):
    """[(points, closed)] of a path given as [(letter, points)]."""
    subs = []
    at = start = (0, 0)
    last = None  # (kind, control point)
    for c, pts in commands:
        k = {"M": 1, "L": 1, "C": 3, "S": 2, "Q": 2, "T": 1}[c]
        for i in range(0, len(pts), k):
            g = pts[i: i + k]
            kind = "L" if c == "M" and i else c
            if kind == "M":
                subs.append([g[0]])
                last = None
            elif kind == "L":
                subs[-1].append(g[0])
                last = None
            elif kind in "CS":
                if kind == "S":
                    cp = (2 * at[0] - last[1][0], 2 * at[1] - last[1][1]) if last and last[0] == "C" else at
                    g = [cp] + list(g)
                subs[-1] += cubic(at, *g)
                last = ("C", g[1])
            else:
                if kind == "T":
                    cp = (2 * at[0] - last[1][0], 2 * at[1] - last[1][1]) if last and last[0] == "Q" else at
                    g = [cp] + list(g)
                subs[-1] += quadratic(at, *g)
                last = ("Q", g[0])
            at = g[-1]
    return [(s, False) for s in subs]


def bends(segs):
    """For each segment (tolerance, radius): how far the curve it stands for can be from it, and the radius of the curve."""
    out = []
    for i, s in enumerate(segs):
        if not isinstance(s[1], CP):
            out.append((0.0, 1e9))
            continue
        ln = math.dist(*s)
        t = 0.0
        if i and isinstance(segs[i - 1][1], CP):
            t = turn(segs[i - 1], s)
        if i + 1 < len(segs) and isinstance(segs[i + 1][1], CP):
            t = max(t, turn(s, segs[i + 1]))
        t = math.radians(t)
        out.append((ln * t / 4, ln / t if t > 1e-6 else 1e9))
    return out


def seg_dist(p, a, b):
    """(distance, parameter along the segment, clamped)"""
    dx, dy = b[0] - a[0], b[1] - a[1]
    q = dx * dx + dy * dy
    t = ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / q if q else 0.0
    t = 0.0 if t < 0 else 1.0 if t > 1 else t
    return math.hypot(p[0] - a[0] - t * dx, p[1] - a[1] - t * dy), t


class Fill:
    def __init__(self, subs, colour):
        self.colour = colour
        self.rings = []
        for pts, _ in subs:
            if pts[0] != pts[-1]:
                pts = pts + [pts[0]]
            segs = list(zip(pts, pts[1:]))
            self.rings.append([(a, b, EDGE + tol) for (a, b), (tol, _) in zip(segs, bends(segs))])
        self.points = [p for pts, _ in subs for p in pts]
        xs = [p[0] for p in self.points]
        ys = [p[1] for p in self.points]
        self.box = (min(xs) - EDGE, min(ys) - EDGE, max(xs) + EDGE, max(ys) + EDGE)

    def at(self, p):
        x, y = p
        b = self.box
        if x < b[0] or y < b[1] or x > b[2] or y > b[3]:
            return -1
        wind = 0
        for r in self.rings:
            for a, c, edge in r:
                if seg_dist(p, a, c)[0] < edge:
                    return 0
                if (a[1] <= y) != (c[1] <= y):
                    cross = (c[0] - a[0]) * (y - a[1]) - (x - a[0]) * (c[1] - a[1])
                    if c[1] > a[1] and cross > 0:
                        wind += 1
                    elif c[1] < a[1] and cross < 0:
                        wind -= 1
        return 1 if wind else -1


class Stroke:
    def __init__(self, subs, colour, width, dashes=None):
        self.colour = colour
        self.half = width / 2
        self.pieces = []  # (a, b): drawn parts of segments
        self.sure = []    # (a, b): parts that are away from the ends of lines and dashes
        self.corners = []  # (vertex, reach)
        self.sharp = []  # (vertex, radius)
        self.unsure = False
        for pts, closed in subs:
            segs = [(a, b) for a, b in zip(pts, pts[1:]) if a != b]
            pos = 0.0
            total = sum(math.dist(a, b) for a, b in segs)
            sharp = [False] + [turn(p, q) > 12 for p, q in zip(segs, segs[1:])] + [False]
            self.sharp += [(segs[i][0], 2) for i, v in enumerate(sharp) if v]
            bent = bends(segs)
            for s, t in zip(segs, segs[1:]):
                # Cairo takes a curve that returns on itself for a straight line
                self.unsure = self.unsure or isinstance(s[1], CP) and isinstance(t[1], CP) and turn(s, t) > 120
            for s, (_, radius) in zip(segs, bent):
                if radius < self.half + 3:
                    self.sharp += [(v, self.half + 2) for v in s]
                    self.corners += [(v, self.half + 2) for v in s]
            for i, (a, b) in enumerate(segs):
                ln = math.dist(a, b)
                edge = EDGE + bent[i][0]
                for lo, hi in on_intervals(pos, pos + ln, dashes):
                    self.pieces.append((mix(a, b, (lo - pos) / ln), mix(a, b, (hi - pos) / ln), edge))
                # sure parts: a margin at the ends of dashes and of the whole line
                m = EDGE
                for lo, hi in on_intervals(pos - 4 * m - 1, pos + ln + 4 * m + 1, dashes):
                    lo, hi = max(lo + m, pos + m * sharp[i], m), min(hi - m, pos + ln - m * sharp[i + 1], total - m)
                    if hi > lo:
                        self.sure.append((mix(a, b, (lo - pos) / ln), mix(a, b, (hi - pos) / ln), edge))
                pos += ln
            pairs = list(zip(segs, segs[1:]))
            if segs and pts[0] == pts[-1]:
                pairs.append((segs[-1], segs[0]))
            for (a, b), (c, d) in pairs:
                u = ((b[0] - a[0]) / math.dist(a, b), (b[1] - a[1]) / math.dist(a, b))
                v = ((d[0] - c[0]) / math.dist(c, d), (d[1] - c[1]) / math.dist(c, d))
                half_turn = math.sqrt(max(0.0, (1 + u[0] * v[0] + u[1] * v[1]) / 2))  # sine of half of the inner angle
                reach = self.half * (min(10.5, 1 / half_turn) if half_turn > 0.05 else 10.5)
                if turn((a, b), (c, d)) > 60 and (isinstance(b, CP) or isinstance(d, CP)):
                    reach = self.half * 10.5  # the direction of the curve at its end is not exact
                self.corners.append((b, reach + EDGE))
        every = [p for s in self.pieces for p in s[:2]]
        r = max([self.half] + [c[1] for c in self.corners]) + EDGE + max([s[2] for s in self.pieces] + [0])
        self.box = (min(p[0] for p in every) - r, min(p[1] for p in every) - r, max(p[0] for p in every) + r, max(p[1] for p in every) + r) if every else None

    def at(self, p):
        b = self.box
        if b is None or p[0] < b[0] or p[1] < b[1] or p[0] > b[2] or p[1] > b[3]:
            return -1
        if self.half > EDGE and not self.unsure:
            for a, c, edge in self.sure:
                d, t = seg_dist(p, a, c)
                if d < self.half - edge and 0 < t < 1:
                    return 1 if all(math.dist(p, v) > r for v, r in self.sharp) else 0
        for a, c, edge in self.pieces:
            if seg_dist(p, a, c)[0] < self.half + edge:
                return 0
        for v, reach in self.corners:
            if math.dist(v, p) < reach:
                return 0
        return -1


def turn(s, t):
    """Angle between two segments in degrees."""
    (a, b), (c, d) = s, t
    v = abs(math.atan2(d[1] - c[1], d[0] - c[0]) - math.atan2(b[1] - a[1], b[0] - a[0]))
    return math.degrees(min(v, 2 * math.pi - v))


def mix(a, b, t):
    return (a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t)


def on_intervals(lo, hi, dashes):
    if not dashes:
        return [(lo, hi)]
    pattern = dashes * 2 if len(dashes) % 2 else dashes
    period = sum(pattern)
    out = []
    k = math.floor(lo / period)
    while k * period < hi:
        s = k * period
        for i, d in enumerate(pattern):
            if i % 2 == 0:
                a, b = max(lo, s), min(hi, s + d)
                if b > a:
                    out.append((a, b))
            s += d
        k += 1
    return out


def shape(subs, m, colour=None, bg=None, width=1, dashes=None):
    """Layers of a shape, painted in this order; m maps it to the device and scales lengths by its determinant."""
    dev = [([type(p)(geom.apply(m, p)) if isinstance(p, CP) else geom.apply(m, p) for p in pts], closed) for pts, closed in subs]
    k = math.sqrt(abs(m[0] * m[3] - m[1] * m[2]))
    out = []
    if bg:
        out.append(Fill(dev, bg))
    if colour:
        out.append(Stroke(dev, colour, (width or 1) * k, [d * k for d in dashes] if dashes else None))
    return out


def colours_at(layers, p):
    """[(colour, alpha)] of the layers seen at p, the topmost first, down to the first opaque one; None near edges."""
    out = []
    for ly in reversed(layers):
        r = ly.at(p)
        if r == 0:
            return None
        if r == 1:
            alpha = getattr(ly, "alpha", 1)
            out.append((ly.colour, alpha))
            if alpha == 1:
                break
    return out


def composed(seen, rgb):
    """(r, g, b, a) of such a list over nothing, with colours from 0 to 255."""
    acc, left = [0.0, 0.0, 0.0], 1.0
    for c, alpha in seen:
        for k, v in enumerate(rgb(c)):
            acc[k] += left * alpha * v
        left *= 1 - alpha
    a = 1 - left
    return tuple(v / a if a else 0.0 for v in acc) + (255 * a,)
