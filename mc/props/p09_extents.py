"""P09: reported extents and corners are those of the shape."""
from itertools import product

from mc import gdocs as D
from mc import gmodel as G
from mc import shapes as S
from mc.core import Violation

PID = 'P09'
LEVEL = 'exploration'
RULE = ('every primitive kind on a lattice of sizes, positions, rotations (full turn both ways), arc angles, '
        'directions, quadrant modes and pens, and every pair of drawing pieces as a file; extents compared with the '
        'analytic extent of the shape: it must contain the shape, be exact where an exact box is defined (everything '
        'but rotated diamonds, obrounds, rounded and chamfered rectangles and polygons, which may report the box of '
        'the enclosing rectangle or circle) and be the union over a file; outcome = (extent, corners)')
BOUNDS = {'quick': 'angles in steps of 30 degrees plus odd ones, 3 sizes, 2 positions',
          'thorough': 'angles in steps of 15 degrees plus odd ones, 4 sizes, 3 positions'}
ASSUMPTIONS = ('single-quadrant arcs sweep at most 90 degrees', 'agreement to 1e-9')

PENS = [['Circle', {'position': (0, 0), 'diameter': 0.5}], ['Circle', {'position': (0, 0), 'diameter': 0}],
        ['Rectangle', {'position': (0, 0), 'width': 0.5, 'height': 0.25}],
        ['Obround', {'position': (0, 0), 'width': 0.25, 'height': 0.75}],
        ['Polygon', {'position': (0, 0), 'sides': 5, 'radius': 0.5, 'rotation': 20}]]
SHAPES = [[0, 0], [4, 0], [4, 2], [0, 2]], [[0, 0], [3, -1], [1, 4]], [[-1, -1], [2, 0], [-1, 1], [-3, 0.5], [-2, -2]]


def specs(full):
    positions = [(0, 0), (-2.5, 1.25)] + ([(100, 0.001)] if full else [])
    step = 15 if full else 30
    angles = sorted(set(list(range(-360, 361, step)) + [1, 89.5, 91, 200.25, -73]))
    sizes = [(1, 0.5), (0.25, 2), (1, 1)] + ([(3, 0.125)] if full else [])
    for p in positions:
        for d in (1, 0.125, 0):
            yield ['Circle', dict(position=p, diameter=d)]
            yield ['Drill', dict(position=p, diameter=d)]
        yield ['RoundButterfly', dict(position=p, diameter=1.5)]
        yield ['SquareButterfly', dict(position=p, side=1.5)]
        yield ['SquareRoundDonut', dict(position=p, inner_diameter=1, outer_diameter=1.5)]
        for s in ('round', 'square', 'hexagon', 'octagon'):
            yield ['Donut', dict(position=p, shape=s, inner_diameter=1, outer_diameter=1.5)]
        for (w, h), r in product(sizes, angles):
            for k in ('Rectangle', 'Diamond', 'Obround', 'Ellipse'):
                yield [k, dict(position=p, width=w, height=h, rotation=r)]
            for c in product((True, False), repeat=4):
                if sum(c) in (0, 1, 4) or full:
                    yield ['ChamferRectangle', dict(position=p, width=w, height=h, chamfer=0.0625, corners=list(c),
                                                    rotation=r)]
                    yield ['RoundRectangle', dict(position=p, width=w, height=h, radius=0.0625, corners=list(c),
                                                  rotation=r)]
        for n, r in product((3, 4, 5, 6, 12), angles):
            yield ['Polygon', dict(position=p, sides=n, radius=1.5, rotation=r)]
        for pts in SHAPES:
            q = [[x + p[0], y + p[1]] for x, y in pts]
            yield ['Outline', dict(points=q)]
            yield ['Region', dict(points=q)]
            yield ['Region', dict(points=q, pen=PENS[0])]
            yield ['Outline', dict(points=q, pen=PENS[0])]
        ends = [(0, 0), (1, 0), (-1, 0), (0, 2), (0, -2), (3, 1), (-1, 2), (-2, -0.5), (1, -4)]
        for e in ends:
            for ap in PENS:
                yield ['Line', dict(start=p, end=S.add(p, e), aperture=ap)]
            if e != (0, 0):
                yield ['Slot', dict(start=p, end=S.add(p, e), diameter=0.25)]
        starts = list(range(0, 360, step)) + [1, 44, 91, 181, 271, 359]
        sweeps = [n for n in range(-360, 361, step) if n] + [-359, -271, -91, -89, -1, 1, 89, 91, 181, 359]
        for a0, s in product(starts, sweeps):
            for ap in PENS if full or p == (0, 0) else PENS[:1]:
                yield ['Arc', dict(center=p, r=2, a0=a0, sweep=s, aperture=ap, quadrant_mode='multi-quadrant')]
            if abs(s) <= 90:
                yield ['Arc', dict(center=p, r=2, a0=a0, sweep=s, aperture=PENS[0],
                                   quadrant_mode='single-quadrant')]
        for a0, d in product(starts, ('clockwise', 'counterclockwise')):
            yield ['Arc', dict(center=p, r=2, a0=a0, sweep=0, dir0=d, aperture=PENS[0],
                               quadrant_mode='single-quadrant')]


def cases(tier):
    full = tier != 'quick'
    for s in specs(full):
        yield ['shape', s]
    names = sorted(D.PIECES)
    for n in (1, 2):
        for combo in product(names, repeat=n):
            for a in sorted(D.APERTURES) if full or n == 1 else ('c', 'r', 'BOX'):
                yield ['file', list(combo), a]


def tight(a, b):
    return S.inside(a, b) and S.inside(b, a)


def run(case, ctx):
    if case[0] == 'file':
        return run_file(case, ctx)
    spec = case[1]
    p = S.make(spec)
    inner, outer = S.extent(spec)
    got = p.bounding_box
    if not (S.inside(inner, got) and S.inside(got, outer)):
        raise Violation('extent of %s' % (spec,), (inner, outer), got)
    bare = p.bounding_box_no_aperture
    if spec[0] in ('Line', 'Arc'):
        if not tight(bare, S.spine(spec)):
            raise Violation('extent without aperture of %s' % (spec,), S.spine(spec), bare)
    elif spec[0] != 'Outline' and not tight(bare, got):
        raise Violation('extent without aperture of %s' % (spec,), got, bare)
    ref = S.corners(spec)
    if ref is not None:
        have = [tuple(v) for v in p.vertices]
        rest = list(ref)
        for v in have:
            near = [q for q in rest if abs(q[0] - v[0]) < 1e-9 and abs(q[1] - v[1]) < 1e-9]
            if not near:
                raise Violation('corners of %s' % (spec,), ref, have)
            rest.remove(near[0])
        if rest:
            raise Violation('corners of %s' % (spec,), ref, have)
        if len(p.segments) != len(ref) * (len(ref) - 1) // 2:
            raise Violation('segments of %s' % (spec,), ref, p.segments)
    if p.bounding_box != got:
        raise Violation('extent changes when asked again', got, p.bounding_box)
    if spec[0] in ('Rectangle', 'Donut'):
        if not tight(((p.lower_left[0], p.upper_right[0]), (p.lower_left[1], p.upper_right[1])), outer):
            raise Violation('corner points of %s' % (spec,), outer, (p.lower_left, p.upper_right))
    if spec[0] == 'Obround' and spec[1]['rotation'] == 0:
        (x, y), w, h = spec[1]['position'], spec[1]['width'], spec[1]['height']
        r = min(w, h) / 2.0
        ends = [(x, y + h / 2.0 - r), (x, y - h / 2.0 + r)] if h > w else [(x - w / 2.0 + r, y), (x + w / 2.0 - r, y)]
        mid = ((x - w / 2.0, x + w / 2.0), (y - h / 2.0 + r, y + h / 2.0 - r)) if h > w else \
            ((x - w / 2.0 + r, x + w / 2.0 - r), (y - h / 2.0, y + h / 2.0))
        sub = p.subshapes
        have = sorted([tuple(sub[k].position) + (sub[k].radius,) for k in ('circle1', 'circle2')])
        want = sorted([e + (r,) for e in ends])
        if not G.same(want, have) or not tight(mid, sub['rectangle'].bounding_box):
            raise Violation('parts of %s' % (spec,), (want, mid), (have, sub['rectangle'].bounding_box))
    if spec[0] == 'Arc':
        s = abs(spec[1]['sweep'])
        want = (s % 360) * 3.141592653589793 / 180
        d = abs(p.sweep_angle - want)
        if min(d, abs(d - 2 * 3.141592653589793)) > 1e-9:
            raise Violation('sweep of %s' % (spec,), want, p.sweep_angle)
        if abs(p.radius - 2) > 1e-9:
            raise Violation('radius of %s' % (spec,), 2, p.radius)
    return G.show([spec[0], got, ref])


def object_box(o, prims):
    """model extent of a drawn object (macro flashes: union of the parts the library drew)"""
    k = o[0]
    if k in ('line', 'arc'):
        ap = o[3] if k == 'line' else o[6]
        if ap is None:
            w = h = 0
        else:
            w, h = float(ap[1]) / 2, float(ap[1] if ap[0] in 'C' else ap[2]) / 2
        if k == 'line':
            b = S.box_of([tuple(map(float, o[1])), tuple(map(float, o[2]))])
        else:
            b = arc_box(*[tuple(map(float, v)) for v in o[1:4]], ccw=o[4] == 'counterclockwise',
                        multi=o[5] == 'multi-quadrant')
        return S.grow(b, w, h)
    if k == 'region':
        b = None
        for s in o[1]:
            sb = object_box(s[:3] + (None,) + s[4:] if s[0] == 'line' else s[:6] + (None,) + s[7:], None)
            b = sb if b is None else S.join(b, sb)
        return b
    raise KeyError(k)


def arc_box(s, e, c, ccw, multi):
    import math
    r = math.hypot(s[0] - c[0], s[1] - c[1])
    a0 = math.degrees(math.atan2(s[1] - c[1], s[0] - c[0]))
    a1 = math.degrees(math.atan2(e[1] - c[1], e[0] - c[0]))
    sweep = (a1 - a0) % 360 if ccw else -((a0 - a1) % 360)
    if s == e:
        sweep = 0 if not multi else 360 if ccw else -360
    return S.spine(['Arc', dict(center=c, r=r, a0=round(a0, 9), sweep=round(sweep, 9))])


def run_file(case, ctx):
    import gerber
    from mc.props.p04_roundtrip import aps_piece
    _, pieces, key = case
    cmds = D.head('IN', (2, 4), 'L', [key if D.stroke_ok(key) else 'c', key])
    cmds += [['D', 10], ['c', None, 0, 0, None, None, 'D02']]
    for n, p in enumerate(pieces):
        cmds += [['D', 11]] if p == 'flash' else [['D', 10]]
        cmds += D.PIECES[p]
    text = D.text_of(cmds)
    f = gerber.loads(text)
    g = D.build(cmds)
    objs = G.visible(g.out)
    prims = [p for p in f.primitives if not G.degenerate(G.canon_prim(p))]
    if len(objs) != len(prims):
        raise Violation('number of objects', G.show(objs), prims)
    box = None
    for o, p in zip(objs, prims):
        b = p.bounding_box
        if o[0] == 'flash':
            part = [q.bounding_box for q in getattr(p, 'primitives', [])] or [b]
            u = part[0]
            for q in part[1:]:
                u = S.join(u, q)
            if not tight(u, b):
                raise Violation('extent of a macro flash', u, b)
        else:
            ref = object_box(o, p)
            if not tight(ref, b):
                raise Violation('extent of %s in\n%s' % (G.show(o), text), ref, b)
        box = b if box is None else S.join(box, b)
    if not tight(box, f.bounding_box):
        raise Violation('extent of the file\n%s' % text, box, f.bounding_box)
    pts = []
    pos = [0, 0]
    for c in cmds:
        if c[0] == 'c':
            pts.append((c[2], c[3]))
    xs, ys = [p[0] / 4.0 for p in pts if p[0] is not None], [p[1] / 4.0 for p in pts if p[1] is not None]
    want = ((min(xs), max(xs)), (min(ys), max(ys)))
    if not tight(want, f.bounds):
        raise Violation('coordinate range of the file\n%s' % text, want, f.bounds)
    if not G.same(f.size, (want[0][1] - want[0][0], want[1][1] - want[1][0])):
        raise Violation('size of the file\n%s' % text, want, f.size)
    return G.show([box, want])
