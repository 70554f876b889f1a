# -*- coding: utf-8 -*-
"""Reference geometry of aperture macro primitives."""
import math

from . import gmodel as G
from .core import Violation


def prim_text(p):
    if p[0] == '0':
        return '0 ' + p[1]
    return ','.join([p[0]] + [G.num(v) for v in p[1:]])


def rot(pt, deg):
    c, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    return (c * pt[0] - s * pt[1], s * pt[0] + c * pt[1])


def reference(p, at):
    """drawable description(s) of macro primitive p flashed at `at`"""
    def sh(pt):
        return (pt[0] + at[0], pt[1] + at[1])
    k = p[0]
    if k == '0':
        return []
    if k == '7':
        return [('thermal', sh((p[1], p[2])), p[3], p[4], p[5], p[6], q) for q in range(4)]
    pol = 'dark' if p[1] == 1 else 'clear'
    if k == '1':
        return [('circle', p[2], sh(rot((p[3], p[4]), p[5] if len(p) > 5 else 0)), pol)]
    if k == '5':
        return [('polygon', p[2], p[5], sh((p[3], p[4])), p[6], pol)]
    if k in ('2', '20'):
        w, s, e, r = p[2], (p[3], p[4]), (p[5], p[6]), p[7]
        L = math.hypot(e[0] - s[0], e[1] - s[1])
        n = (-(e[1] - s[1]) / L * w / 2.0, (e[0] - s[0]) / L * w / 2.0)
        pts = [(s[0] + n[0], s[1] + n[1]), (s[0] - n[0], s[1] - n[1]), (e[0] - n[0], e[1] - n[1]),
               (e[0] + n[0], e[1] + n[1])]
    elif k == '21':
        w, h, x, y, r = p[2] / 2.0, p[3] / 2.0, p[4], p[5], p[6]
        pts = [(x - w, y - h), (x + w, y - h), (x + w, y + h), (x - w, y + h)]
    elif k == '4':
        r = p[-1]
        v = p[3:-1]
        pts = [(v[i], v[i + 1]) for i in range(0, len(v), 2)][:-1]
    return [('outline', [sh(rot(q, r)) for q in pts], pol)]


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def near(a, b, tol=1e-9):
    return close(a[0], b[0], tol) and close(a[1], b[1], tol)


def cyclic_equal(a, b, tol=1e-9):
    if len(a) != len(b):
        return False
    n = len(a)
    for cand in (b, b[::-1]):
        for k in range(n):
            if all(near(a[i], cand[(i + k) % n], tol) for i in range(n)):
                return True
    return False


def loop(outline, tol=1e-9):
    """vertices of an outline; its edges must be connected and closed"""
    segs = outline.primitives
    for i, s in enumerate(segs):
        if not near(s.end, segs[(i + 1) % len(segs)].start, tol):
            raise Violation('outline edges are not connected: edge %d ends at %r, the next starts at %r'
                            % (i, s.end, segs[(i + 1) % len(segs)].start))
    pts = []
    for s in segs:
        if not pts or not near(pts[-1], s.start, tol):
            pts.append(tuple(s.start))
    if len(pts) > 1 and near(pts[0], pts[-1], tol):
        pts.pop()
    return pts


def matches(ref, p, tol=1e-9):
    from gerber import primitives as P
    k = ref[0]
    if k == 'circle':
        return type(p) is P.Circle and close(p.diameter, ref[1], tol) and near(p.position, ref[2], tol) \
            and p.level_polarity == ref[3] and G.canon_hole(p) == (0, 0, 0)
    if k == 'polygon':
        return type(p) is P.Polygon and p.sides == ref[1] and close(p.radius * 2, ref[2], tol) \
            and near(p.position, ref[3], tol) and close(p.rotation, ref[4], tol) and p.level_polarity == ref[5] \
            and G.canon_hole(p) == (0, 0, 0)
    if k == 'outline':
        return type(p) is P.Outline and p.level_polarity == ref[2] and cyclic_equal(ref[1], loop(p, tol), tol)
    if k == 'thermal':
        if type(p) is not P.Outline or p.level_polarity != 'dark':
            return False
        _, c, od, idm, gap, r, q = ref
        pts = loop(p, tol)
        ro, ri = od / 2.0, idm / 2.0
        loc = [rot((x - c[0], y - c[1]), -r - 90 * q) for x, y in pts]
        ao = math.asin(gap / 2.0 / ro)
        corner = None
        wide = 20 * tol + (4 * tol / ri if ri and tol > 1e-8 else 0)     # angles of points known up to tol
        if gap / math.sqrt(2) > ri:     # the gaps cover the inner circle: a corner in place of its arc
            corner = [n for n, (x, y) in enumerate(loc) if near((x, y), (gap / 2.0, gap / 2.0), tol)]
            if len(corner) != 1:
                return False
            k = corner[0]
            loc = loc[k + 1:] + loc[:k]
            ends = sorted(math.atan2(y, x) for x, y in (loc[0], loc[-1]))
            if not close(ends[0], ao, 1e-7 + wide) or not close(ends[1], math.pi / 2 - ao, 1e-7 + wide):
                return False
        else:
            ai = math.asin(gap / 2.0 / ri)
        for x, y in loc:
            d = math.hypot(x, y)
            a = math.atan2(y, x)
            if close(d, ro, tol):
                lo = ao
            elif corner is None and close(d, ri, tol):
                lo = ai
            else:
                return False
            if not (lo - wide <= a <= math.pi / 2 - lo + wide):
                return False
        for rad, off in ((ro, ao), (ri, ai)) if corner is None else ((ro, ao),):
            ring = sorted(math.atan2(y, x) for x, y in loc if close(math.hypot(x, y), rad, tol))
            if len(ring) < 3 or not close(ring[0], off, wide) or not close(ring[-1], math.pi / 2 - off, wide):
                return False
            if max(b - a for a, b in zip(ring, ring[1:])) > math.radians(20):
                return False
        if corner is not None:
            return True
        # one pass along each arc: radius changes exactly twice around the loop
        flags = [close(math.hypot(x, y), ro, tol) for x, y in loc]
        return sum(flags[i] != flags[i - 1] for i in range(len(flags))) == 2
    return False


def scaled(ref, k, dx, dy):
    """a reference shape (from reference(prim, at)) scaled by k, then moved"""
    def pt(p):
        return (p[0] * k + dx, p[1] * k + dy)
    if ref[0] == 'circle':
        return ('circle', ref[1] * k, pt(ref[2]), ref[3])
    if ref[0] == 'polygon':
        return ('polygon', ref[1], ref[2] * k, pt(ref[3]), ref[4], ref[5])
    if ref[0] == 'outline':
        return ('outline', [pt(p) for p in ref[1]], ref[2])
    if ref[0] == 'thermal':
        return ('thermal', pt(ref[1]), ref[2] * k, ref[3] * k, ref[4] * k, ref[5], ref[6])
    raise KeyError(ref[0])
