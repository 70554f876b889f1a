"""P25: the outline swept by a polygonal pen is the convex hull of the pen at both ends."""
from itertools import product
from math import gcd

from mc import gmodel as G
from mc import shapes as S
from mc.core import Violation
from mc.props.p10_coherence import plain_hull

PID = 'P25'
LEVEL = 'exploration'
RULE = ('(a) every sequence (with repetition) of n points of a small grid, under several affine placements of the '
        'grid: the hull is the reference hull, whatever the order and multiplicity of the points; (b) every stroke '
        'over a lattice of start, end, pen shape and size: the outline is the hull of the pen placed at both ends '
        'and lies in the stroke\'s bounding box; point sets without area are trivial')
BOUNDS = {'quick': '(a) n <= 5 on a 3x3 grid, 4 placements (n=5: 1), and up to 99 points on curves in up to 12 orders; (b) 5x5 ends, 9 pens',
          'thorough': '(a) n <= 6 on a 3x3 grid and 4 on 4x4 under 6 placements, n = 7 on 3x3 and 5 on 4x4 under one, and up to 100 points on curves in every order of a stride; (b) 9x9 ends, 14 pens'}
ASSUMPTIONS = ('points that lie on a straight stretch of the hull may be listed or left out',)
TRIVIAL = ('no area',)
PLACES = [(1, 0, 0, 1, 0, 0), (0.1, 0, 0, 0.1, 0.3, -0.7), (0.6, -0.8, 0.8, 0.6, 10, 5), (-3, 1, 2, 7, -100, 3),
          (1e-3, 0, 0, 2e-3, 12.345678, -4.5), (0.6, 0.8, 0.8, -0.6, 0.1, 0.1)]
# powers of two: points, and what is computed of them, stay exact
SMALL = [(2.0 ** -11, 0, 0, 2.0 ** -11, 0, 0), (2.0 ** -17, 0, 0, 1, 0, 0), (1, 0, 0, 2.0 ** -17, 0, 0),
         (2.0 ** -20, 0, 0, 2.0 ** -21, 0.5, -0.25), (2.0 ** 20, 0, 0, 2.0 ** -20, 0, 0), (4096, 0, 0, 8192, 0, 0)]
PLACES += SMALL
SCALES = [(1, 1), (2.0 ** -11, 2.0 ** -11), (2.0 ** -15, 1), (1, 2.0 ** -15), (2.0 ** -18, 2.0 ** -18), (1024, 1024)]


def cases(tier):
    quick = tier == 'quick'
    for n in range(3, 6 if quick else 8):
        grid = list(product(range(3), range(3)))
        for first in product(grid, repeat=2):
            for a in range(len(PLACES)) if not quick else (list(range(4)) + list(range(6, 12)) if n < 5 else [0]):
                if n == 7 and a != 2:
                    continue
                yield ['pts', n, 3, [list(p) for p in first], a]
    if not quick:
        grid = list(product(range(4), range(4)))
        for first in product(grid, repeat=2):
            for a in range(len(PLACES)):
                yield ['pts', 4, 4, [list(p) for p in first], a]
            yield ['pts', 5, 4, [list(p) for p in first], 0]
    for n in list(range(3, 25)) + [42, 64, 99] if quick else range(3, 101):
        for kind in RINGS:
            for stride in range(1, n):
                if gcd(n, stride) == 1 and (not quick or stride in (1, 2, 7, n - 1) or n < 14):
                    for a in range(len(PLACES)) if n < 14 or not quick else (0, 3, 6):
                        yield ['ring', n, kind, stride, a]
    m = 2 if quick else 4
    ends = list(product(range(-m, m + 1), repeat=2))
    pens = [['Rectangle', 1, 0.5], ['Rectangle', 0.25, 2], ['Rectangle', 1, 1]]
    for n in (3, 4, 5, 6, 8) if quick else (3, 4, 5, 6, 7, 8, 11, 12):
        for r in (0, 20):
            pens.append(['Polygon', n, 0.5, r])
    for pen in pens:
        for e in ends:
            for k in range(len(SCALES)):
                if pen[0] == 'Rectangle' or SCALES[k][0] == SCALES[k][1]:
                    yield ['stroke', pen, list(e), k]


def ref(points):
    pts = sorted(set(points))

    def half(pts):
        out = []
        for p in pts:
            while len(out) >= 2 and ((out[-1][0] - out[-2][0]) * (p[1] - out[-2][1])
                                     - (out[-1][1] - out[-2][1]) * (p[0] - out[-2][0])) <= 0:
                out.pop()
            out.append(p)
        return out
    if len(pts) < 3:
        return pts
    return half(pts)[:-1] + half(pts[::-1])[:-1]


RINGS = ('bowl', 'lens', 'inner', 'twice')


def ring(n, kind, stride):
    """n points, all (or every second) of them corners of their hull, in order of the stride"""
    pts = []
    for k in range(n):
        if kind == 'lens' and k % 2:
            pts.append((k, 2 * n * n - k * k))
        elif kind == 'inner' and k % 2:
            pts.append((k // 2 + 1, n * n))
        else:
            pts.append((k, k * k))
    pts = [pts[k * stride % n] for k in range(n)]
    return pts + (pts[::-1] if kind == 'twice' else [])


def run(case, ctx):
    from gerber.utils import convex_hull
    if case[0] == 'stroke':
        return stroke(case)
    if case[0] == 'ring':
        pts = ring(*case[1:4])
        a, b, c, d, e, f = PLACES[case[4]]
        back = dict(((a * p[0] + b * p[1] + e, c * p[0] + d * p[1] + f), p) for p in pts)
        h = convex_hull([(a * p[0] + b * p[1] + e, c * p[0] + d * p[1] + f) for p in pts])
        r = ref(pts)
        try:
            got = [back[tuple(p)] for p in h]
        except KeyError:
            raise Violation('hull of %s contains a point that was not given' % pts, r, h)
        edge = on_boundary(r, got)
        if edge:
            raise Violation('hull of %s under placement %d: %s' % (pts, case[4], edge), r, got)
        return G.show(got)
    _, n, size, first, a = case
    a, b, c, d, e, f = PLACES[a]

    def place(p):
        return (a * p[0] + b * p[1] + e, c * p[0] + d * p[1] + f)
    flat = True
    first = [tuple(p) for p in first]
    h = None
    for rest in product(product(range(size), range(size)), repeat=n - 2):
        pts = first + list(rest)
        r = ref(pts)
        if len(r) < 3:
            continue
        flat = False
        back = dict((place(p), p) for p in pts)
        h = convex_hull([place(p) for p in pts])
        try:
            got = [back[tuple(p)] for p in h]
        except KeyError:
            raise Violation('hull of %s contains a point that was not given' % pts, r, h)
        edge = on_boundary(r, got)
        if edge:
            raise Violation('hull of %s under placement %s: %s' % (pts, case[4], edge), r, got)
        ctx.count('point_sequences')
    return 'no area' if flat else G.show(h)


def on_boundary(r, got):
    """got must list the corners r in cyclic order (either way round); other listed points
    must lie on the edge between the corners they are listed between"""
    if len(set(got)) != len(got):
        return 'a corner listed twice'
    keep = [p for p in got if p in r]
    if len(keep) != len(r):
        return 'a corner is missing'
    k = keep.index(r[0])
    cyc = keep[k:] + keep[:k]
    if cyc != r and cyc[:1] + cyc[:0:-1] != r:
        return 'corners out of order'
    n = len(got)
    for i, p in enumerate(got):
        if p in r:
            continue
        before = next(got[(i - j) % n] for j in range(1, n) if got[(i - j) % n] in r)
        after = next(got[(i + j) % n] for j in range(1, n) if got[(i + j) % n] in r)
        if (after[0] - before[0]) * (p[1] - before[1]) != (after[1] - before[1]) * (p[0] - before[0]):
            return 'an inner point is listed'
    return None


def stroke(case):
    _, pen, end, scale = case
    sx, sy = SCALES[scale]
    if pen[0] == 'Rectangle':
        ap = ['Rectangle', dict(position=(0, 0), width=pen[1] * sx, height=pen[2] * sy)]
    else:
        ap = ['Polygon', dict(position=(0, 0), sides=pen[1], radius=pen[2] * sx, rotation=pen[3])]
    start = (0.5 * sx, -0.25 * sy)
    finish = S.add(start, (end[0] * 0.5 * sx, end[1] * 0.75 * sy))
    p = S.make(['Line', dict(start=start, end=finish, aperture=ap)])
    pts = [S.add(c, q) for c in S.corners(ap) for q in (start, finish)]
    got = p.vertices
    want = plain_hull(ref([(round(x / sx, 9), round(y / sy, 9)) for x, y in pts]))
    have = plain_hull([(round(x / sx, 9), round(y / sy, 9)) for x, y in got])
    if not (close_cycle(want, have)):
        raise Violation('outline of the stroke %s' % (case,), want, have)
    if not S.inside(S.box_of(got), p.bounding_box):
        raise Violation('outline of the stroke %s leaves its extent' % (case,), p.bounding_box, got)
    return G.show(have)


def close_cycle(a, b):
    if len(a) != len(b):
        return False
    for rev in (b, b[::-1]):
        for k in range(len(a)):
            if all(abs(p[0] - q[0]) < 1e-7 and abs(p[1] - q[1]) < 1e-7 for p, q in zip(a, rev[k:] + rev[:k])):
                return True
    return False
