"""P10: what a shape reports always follows from its current attributes, whatever happened to it before."""
from itertools import combinations, product

from mc import gmodel as G
from mc.core import Violation

PID = 'P10'
LEVEL = 'model_checking'
RULE = ('for every shape kind, every history of attribute changes, translations, unit conversions and queries up to a '
        'fixed length; the model is the plain attribute record; after the history (with and without querying '
        'everything after every step) every derived quantity equals that of a new shape built from the record; '
        'state = (kind, attribute record)')
BOUNDS = {'quick': 'histories <= 3 of all attribute changes (2 values each), 2 translations, 2 conversions; '
                   'queries after every step or only at the end',
          'thorough': 'histories <= 4, plus every placement of queries for histories <= 3'}
ASSUMPTIONS = ('attributes are changed through the shape they belong to (not by reaching into the aperture of a stroke)',
               'agreement to 1e-9')

C = ['Circle', {'position': (0, 0), 'diameter': 0.5}]
C2 = ['Circle', {'position': (0, 0), 'diameter': 2}]
R = ['Rectangle', {'position': (0, 0), 'width': 0.5, 'height': 0.25}]
PG = ['Polygon', {'position': (0, 0), 'sides': 4, 'radius': 0.5}]
POS = ['pt', [(3, -2), (0, 0)]]
HOLES = {'hole_diameter': ['len', [0.25, 0]], 'hole_width': ['len', [0.125]], 'hole_height': ['len', [0.0625]]}
ROT = ['rot', [30, -100]]
# kind -> (constructor arguments in order, {attribute: [type, new values]})
KINDS = {
    'Line': ([['start', 'pt', (0, 0)], ['end', 'pt', (4, 2)], ['aperture', 'ap', R]],
             {'start': ['pt', [(1, 1)]], 'end': ['pt', [(-3, 5)]], 'aperture': ['ap', [C, PG]]}),
    'Arc': ([['start', 'pt', (2, 0)], ['end', 'pt', (0, 2)], ['center', 'pt', (0, 0)],
             ['direction', 'x', 'counterclockwise'], ['aperture', 'ap', C], ['quadrant_mode', 'x', 'multi-quadrant']],
            {'start': ['pt', [(0, -2), (0, 2)]], 'end': ['pt', [(-2, 0), (2, 0)]], 'center': ['pt', [(1, 1)]],
             'direction': ['x', ['clockwise', 'counterclockwise']], 'aperture': ['ap', [C2, R]],
             'quadrant_mode': ['x', ['single-quadrant']]}),
    'Circle': ([['position', 'pt', (1, 2)], ['diameter', 'len', 1.5], ['hole_diameter', 'len', 0.5],
                ['hole_width', 'len', 0.25], ['hole_height', 'len', 0.125]],
               dict(HOLES, position=POS, diameter=['len', [3, 1]])),
    'Ellipse': ([['position', 'pt', (1, 2)], ['width', 'len', 1], ['height', 'len', 2]],
                {'position': POS, 'width': ['len', [3]], 'height': ['len', [0.5]], 'rotation': ROT}),
    'Rectangle': ([['position', 'pt', (1, 2)], ['width', 'len', 1], ['height', 'len', 2], ['hole_diameter', 'len', 0.5],
                   ['hole_width', 'len', 0], ['hole_height', 'len', 0]],
                  dict(HOLES, position=POS, width=['len', [3]], height=['len', [0.5]], rotation=ROT)),
    'Diamond': ([['position', 'pt', (1, 2)], ['width', 'len', 1], ['height', 'len', 2]],
                {'position': POS, 'width': ['len', [3]], 'height': ['len', [0.5]], 'rotation': ROT}),
    'ChamferRectangle': ([['position', 'pt', (1, 2)], ['width', 'len', 1], ['height', 'len', 2],
                          ['chamfer', 'len', 0.25], ['corners', 'x', [True, False, True, True]]],
                         {'position': POS, 'width': ['len', [3]], 'height': ['len', [1.5]],
                          'chamfer': ['len', [0.125]], 'corners': ['x', [[False] * 4]], 'rotation': ROT}),
    'RoundRectangle': ([['position', 'pt', (1, 2)], ['width', 'len', 1], ['height', 'len', 2],
                        ['radius', 'len', 0.25], ['corners', 'x', [True, False, True, True]]],
                       {'position': POS, 'width': ['len', [3]], 'height': ['len', [1.5]],
                        'radius': ['len', [0.125]], 'corners': ['x', [[False] * 4]], 'rotation': ROT}),
    'Obround': ([['position', 'pt', (1, 2)], ['width', 'len', 1], ['height', 'len', 2], ['hole_diameter', 'len', 0.5],
                 ['hole_width', 'len', 0], ['hole_height', 'len', 0]],
                dict(HOLES, position=POS, width=['len', [3]], height=['len', [0.5]], rotation=ROT)),
    'Polygon': ([['position', 'pt', (1, 2)], ['sides', 'x', 5], ['radius', 'len', 1], ['hole_diameter', 'len', 0.5],
                 ['hole_width', 'len', 0], ['hole_height', 'len', 0]],
                dict(HOLES, position=POS, sides=['x', [3, 8]], radius=['len', [2]], rotation=ROT)),
    'Outline': ([['primitives', 'poly', [(0, 0), (4, 0), (1, 3)]]], {}),
    'Region': ([['primitives', 'poly', [(0, 0), (4, 0), (1, 3)]]], {}),
    'RoundButterfly': ([['position', 'pt', (1, 2)], ['diameter', 'len', 1]],
                       {'position': POS, 'diameter': ['len', [3]]}),
    'SquareButterfly': ([['position', 'pt', (1, 2)], ['side', 'len', 1]], {'position': POS, 'side': ['len', [3]]}),
    'Donut': ([['position', 'pt', (1, 2)], ['shape', 'x', 'hexagon'], ['inner_diameter', 'len', 1],
               ['outer_diameter', 'len', 2]],
              {'position': POS, 'shape': ['x', ['round', 'square']], 'inner_diameter': ['len', [0.01]],
               'outer_diameter': ['len', [300]]}),
    'SquareRoundDonut': ([['position', 'pt', (1, 2)], ['inner_diameter', 'len', 1], ['outer_diameter', 'len', 2]],
                         {'position': POS, 'outer_diameter': ['len', [300]]}),
    'Drill': ([['position', 'pt', (1, 2)], ['diameter', 'len', 1]], {'position': POS, 'diameter': ['len', [3]]}),
    'Slot': ([['start', 'pt', (1, 2)], ['end', 'pt', (-4, 2)], ['diameter', 'len', 1]],
             {'start': ['pt', [(3, 3)]], 'end': ['pt', [(0, 0)]], 'diameter': ['len', [3]]}),
}
QUERIES = ['bounding_box', 'bounding_box_no_aperture', 'vertices', 'segments', 'radius', 'diameter', 'hole_radius',
           'axis_aligned_width', 'axis_aligned_height', 'angle', 'sweep_angle', 'start_angle', 'end_angle',
           'lower_left', 'upper_right', 'orientation', 'width', 'height', 'units', 'rotation', 'flashed']


def ops_of(kind):
    ops = [['offset', 1.5, -2], ['offset', 0, 3], ['to_inch'], ['to_metric']]
    names = [n for n, _, _ in KINDS[kind][0]]
    if 'start' in names:    # one end comes to the place of the other
        ops[1:2] = [['offset'] + [e - s for s, e in zip(KINDS[kind][0][0][2], KINDS[kind][0][1][2])]]
    for attr in sorted(KINDS[kind][1]):
        for n in range(len(KINDS[kind][1][attr][1])):
            ops.append(['set', attr, n])
    return ops


def cases(tier):
    quick = tier == 'quick'
    for n in range(0, 4 if quick else 5):
        for kind in sorted(KINDS):
            for hist in product(ops_of(kind), repeat=n):
                if n < 4:
                    yield [kind, 'inch', list(hist), 'all']
                yield [kind, 'metric', list(hist), 'end' if n < 4 else 'all']
                if not quick and 1 < n < 4:
                    for mask in range(1, 2 ** n - 1):
                        yield [kind, 'inch', list(hist), mask]


def build(kind, rec, units):
    from gerber import primitives as P
    args, kw = [], {}

    def ap(spec):
        a = dict(spec[1])
        return getattr(P, spec[0])(units=units, **a)
    for name, typ, _ in KINDS[kind][0]:
        v = rec[name]
        if typ == 'ap':
            v = ap(v)
        elif typ == 'poly':
            pen = P.Circle((0, 0), 0, units=units)
            pts = [tuple(p) for p in v]
            v = [P.Line(p, q, pen, level_polarity='dark', units=units) for p, q in zip(pts, pts[1:] + pts[:1])]
        elif isinstance(v, list):
            v = list(v)
        args.append(v)
    if rec.get('rotation'):
        kw['rotation'] = rec['rotation']
    return getattr(P, kind)(*args, units=units, **kw)


def scale(typ, v, k):
    if typ == 'pt':
        return tuple(c * k for c in v)
    if typ == 'len':
        return v * k
    if typ == 'poly':
        return [scale('pt', p, k) for p in v]
    if typ == 'ap':
        return [v[0], dict((n, scale('pt', x, k) if n == 'position' else x if n == 'sides' else x * k)
                           for n, x in v[1].items())]
    return v


def observe(p):
    out = {}
    for q in QUERIES:
        try:
            out[q] = getattr(p, q)
        except AttributeError:
            continue
    if hasattr(p, 'subshapes'):
        out['subshapes'] = sorted((n, s.bounding_box) for n, s in p.subshapes.items())
    for q in ('position', 'start', 'end', 'center', 'hole_diameter', 'hole_width', 'hole_height', 'side', 'sides',
              'inner_diameter', 'outer_diameter', 'chamfer', 'corners', 'direction', 'quadrant_mode', 'shape'):
        if hasattr(p, q):
            out[q] = getattr(p, q)
    if type(p).__name__ == 'Line' and out.get('vertices'):
        # the outline swept by the pen; points on a straight stretch of it are immaterial
        if out['segments'] != list(combinations(out['vertices'], 2)):
            raise Violation('segments do not join the vertices', out['vertices'], out['segments'])
        del out['segments']
        out['vertices'] = plain_hull(out['vertices'])
    ap = getattr(p, 'aperture', None)
    if ap is not None:
        out['aperture'] = (type(ap).__name__, ap.bounding_box, ap.units)
    if hasattr(p, 'primitives'):
        out['parts'] = [(q.start, q.end, q.units) for q in p.primitives]
    return out


def plain_hull(pts):
    pts = [tuple(p) for p in pts]
    size = max(abs(c) for p in pts for c in p) or 1.0
    while True:
        for n in range(len(pts)):
            a, b, c = pts[n - 1], pts[n], pts[(n + 1) % len(pts)]
            if abs((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])) < 1e-9 * size * size:
                del pts[n]
                break
        else:
            break
    n = min(range(len(pts)), key=lambda i: (round(pts[i][0], 7), round(pts[i][1], 7)))
    return pts[n:] + pts[:n]


def run(case, ctx):
    kind, units, hist, queries = case
    args, settable = KINDS[kind]
    types = dict((n, t) for n, t, _ in args)
    types['rotation'] = 'x'
    rec = dict((n, v) for n, _, v in args)
    p = build(kind, rec, units)
    if queries == 'all':
        observe(p)
    done = []
    for step, op in enumerate(hist):
        src = (kind, units, G.show(sorted(rec.items())))
        if op[0] == 'offset':
            p.offset(op[1], op[2])
            for n, t in types.items():
                if t == 'pt':
                    rec[n] = (rec[n][0] + op[1], rec[n][1] + op[2])
                elif t == 'poly':
                    rec[n] = [(x + op[1], y + op[2]) for x, y in rec[n]]
        elif op[0] in ('to_inch', 'to_metric'):
            getattr(p, op[0])()
            target = op[0][3:]
            if target != units:
                k = 25.4 if target == 'metric' else 1 / 25.4
                for n, t in types.items():
                    if n in rec:
                        rec[n] = scale(t, rec[n], k)
                units = target
        else:
            typ, values = settable[op[1]]
            v = values[op[2]]
            rec[op[1]] = v
            setattr(p, op[1], build_ap(v, units) if typ == 'ap' else list(v) if isinstance(v, list) else v)
        done.append(op)
        ctx.transition(src, str(op), (kind, units, G.show(sorted(rec.items()))))
        if queries == 'all' or (isinstance(queries, int) and queries >> step & 1):
            compare(case, done, p, rec, units)
    ctx.trace()
    return G.show(sorted(compare(case, done, p, rec, units).items()))


def build_ap(spec, units):
    from gerber import primitives as P
    return getattr(P, spec[0])(units=units, **spec[1])


def compare(case, done, p, rec, units):
    want, got = observe(build(case[0], rec, units)), observe(p)
    if sorted(want) != sorted(got):
        raise Violation('%s after %s: attributes' % (case[0], done), sorted(want), sorted(got))
    for n in sorted(want):
        if not G.same(want[n], got[n]):
            raise Violation('%s of a %s after %s' % (n, case[0], done), want[n], got[n])
    return got
