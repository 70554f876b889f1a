"""P07: unit conversion and translation never change what a Gerber file draws, whatever the history."""
from itertools import product

from mc import gdocs as D
from mc import gmodel as G
from mc.core import Violation

PID = 'P07'
LEVEL = 'model_checking'
RULE = ('every history (sequence of conversions, translations, copying operations, rewrites) up to a fixed length '
        'applied to each document; after every step the objects drawn, the aperture list, units, extents and the '
        'left-behind originals are compared with the model; model state = (units, translation, rewritten?); '
        'outcome = the final objects')
BOUNDS = {'quick': '7 operations, histories <= 3, 17 documents in both units; <= 2 for every aperture',
          'thorough': '8 operations, histories <= 4 (5 for 3 documents), every aperture <= 3'}
ASSUMPTIONS = ('values fit the 4:6 format used when rewriting; the first coordinate block of a rewritten file gives '
               'both coordinates',)
OPS = ['inch', 'metric', 'copy-inch', 'copy-metric', 'offset', 'copy-offset', 'rewrite', 'offset2']
OFF = {'offset': (0.5, -0.25), 'copy-offset': (-0.25, 1.0), 'offset2': (0.0, 2.0)}
DOCS = [(['line', 'flash'], ['c']), (['arcm', 'clear'], ['c']), (['circ'], ['r']), (['arcs'], ['c']),
        (['region', 'clearline'], ['ch']), (['regarc'], ['o']), (['APS'], ['rhh', 'pr']), (['APS'], ['phh', 'oh']),
        (['APS'], ['BOX', 'c']), (['APS'], ['DONUT', 'TRI']), (['APS'], ['THERM', 'POLY']), (['APS'], ['VEC', 'chh']),
        (['APS'], ['TARGET', 'CROSS']), (['line', 'regarc', 'arcs', 'clear', 'APS'], ['r', 'fine']),
        (['META', 'arcs', 'line', 'APS'], ['c', 'MOIRE']), (['line', 'META', 'clear'], ['rh', 'LOWLEFT']),
        (['line', 'redef', 'arcm', 'flash'], ['r'])]
META = ['comment', 'in', 'of', 'sf', 'ln', 'ippos', 'as', 'ir', 'mi', 'attr', 'g90', 'ofb', 'sfa', 'quad']
FINDINGS = {'macro-params-converted-rewritten': (['APS'], ['BOX', 'BOX2'])}


def cases(tier):
    quick = tier == 'quick'
    ops = OPS[:7] if quick else OPS
    for n in range(1, 4 if quick else 5):
        for hist in product(ops, repeat=n):
            for d in range(len(DOCS)):
                for u in ('IN', 'MM'):
                    if n == 3 and quick and u == 'MM' and d % 3:
                        continue
                    yield ['doc', d, u, list(hist)]
    for a in sorted(D.APERTURES):
        for n in range(1, 3 if quick else 4):
            for hist in product(ops, repeat=n):
                for u in ('IN', 'MM')[n > 2:]:
                    yield ['ap', a, u, list(hist)]
    if not quick:
        for hist in product(ops[:7], repeat=5):
            for d in (0, 8, 13):
                yield ['doc', d, 'IN', list(hist)]
    for name in sorted(FINDINGS):
        for u, hist in (('IN', ['metric', 'rewrite']), ('MM', ['inch', 'rewrite'])):
            yield ['finding', name, u, hist]


def program(case):
    from mc.props.p04_roundtrip import aps_piece
    kind, d, units, hist = case
    if kind == 'doc':
        pieces, aps = DOCS[d]
    elif kind == 'finding':
        pieces, aps = FINDINGS[d]
    else:
        pieces, aps = ['APS'], [d]
    cmds = D.head(units, (2, 4), 'L', aps) + [['D', 10], ['c', None, 0, 0, None, None, 'D02']]
    for p in pieces:
        cmds += aps_piece(aps) if p == 'APS' else [D.NON_DRAWING[e] for e in META] if p == 'META' else D.PIECES[p]
    return cmds


def box_model(box, k, dx, dy):
    return tuple((lo * k + d, hi * k + d) for (lo, hi), d in zip(box, (dx, dy)))


def other_commands(f):
    """the commands which draw nothing, in order"""
    from mc.props.p04_roundtrip import describe
    return [d for d in describe(f) if d[0] in ('IN', 'LN', 'IP', 'AS', 'IR', 'MI', 'OF', 'SF', 'LP', 'COMMENT', 'UNKNOWN',
                                               'DEPRECATED', 'QuadrantMode', 'RegionMode', 'APERTURE')]


def scaled_commands(cmds, k):
    return [(d[0], d[1] * k, d[2] * k) if d[0] == 'OF' else d for d in cmds]


def run(case, ctx):
    import gerber
    from gerber import operations
    from gerber.cam import FileSettings
    prog = program(case)
    g = D.build(prog)
    text = D.text_of(prog)
    f = gerber.loads(text)
    base = g.out
    said = FileSettings(units=f.units, format=(4, 6), zero_suppression='leading')
    cmds0 = other_commands(f)
    bb0, b0 = f.bounding_box, f.bounds
    start = f.units
    k, dx, dy, units = 1.0, 0.0, 0.0, start
    tol = 1e-9
    done = []
    rewritten = False

    def check(h, k, dx, dy, units, tol, when):
        finding = case[1] if case[0] == 'finding' else None
        for s in h.statements:
            s.to_gerber(said)   # queries remember nothing
        exp = D.transform(base, k, dx, dy)
        bad = D.compare(exp, h, tol)
        if bad:
            raise Violation('%s after %s: %s\nprogram:\n%s' % (when, done, bad, text), finding=finding)
        if h.units != units or D.units_of(h) - {units} or h.settings.units != units:
            raise Violation('%s after %s: units' % (when, done), units, (h.units, D.units_of(h)))
        for name, ref, got in (('bounding_box', bb0, h.bounding_box), ('bounds', b0, h.bounds)):
            m = box_model(ref, k, dx, dy)
            if not G.same(m, got, tol, tol):
                raise Violation('%s %s after %s\n%s' % (when, name, done, text), m, got)
        want, have = scaled_commands(cmds0, k), other_commands(h)
        # offsets are written with five decimals
        if not G.same(want, have, tol, (1.1e-5 * 25.4 if rewritten else tol)):
            raise Violation('%s after %s: commands: %s\nprogram:\n%s' % (when, done, G.first_difference(want, have), text),
                            want, have, finding=finding)
        (x0, x1), (y0, y1) = h.bounds
        if not G.same(h.size, (x1 - x0, y1 - y0)):
            raise Violation('size', (x1 - x0, y1 - y0), h.size)
        # the aperture list, in the same units
        want = sorted(G.show(D.scaled_aperture(a, k)[:3]) for a in g.aps.values() if a[0] in 'CRO')
        have = sorted(G.show(G.canon_aperture(a)[:3]) for a in h.apertures
                      if type(a).__name__ in ('Circle', 'Rectangle', 'Obround'))
        if not rewritten and want != have:
            raise Violation('%s apertures after %s' % (when, done), want, have)

    check(f, k, dx, dy, units, tol, 'result')
    for op in case[3]:
        before = (units, round(dx * (1 if units == 'inch' else 1 / 25.4), 6),
                  round(dy * (1 if units == 'inch' else 1 / 25.4), 6), rewritten)
        src, old = None, (k, dx, dy, units, tol)
        if op.startswith('copy-'):
            src = f
        target = {'inch': 'inch', 'metric': 'metric', 'copy-inch': 'inch', 'copy-metric': 'metric'}.get(op)
        if target:
            if src is not None:
                f = getattr(operations, 'to_' + target)(src)
            else:
                getattr(f, 'to_' + target)()
            if target != units:
                s = 25.4 if target == 'metric' else 1 / 25.4
                k, dx, dy, units = k * s, dx * s, dy * s, target
                tol = max(1e-9, tol * s)
        elif op in OFF:
            ox, oy = OFF[op]
            if src is not None:
                f = operations.offset(src, ox, oy)
            else:
                f.offset(ox, oy)
            dx, dy = dx + ox, dy + oy
        elif op == 'rewrite':
            path = D.scratch_file(ctx)
            said.units = f.units
            out = D.write_text(f, path, said)
            if case[0] != 'finding':
                bad = D.macros_differ(out, DOCS[case[1]][1] if case[0] == 'doc' else [case[1]], k)
                if bad:
                    raise Violation('rewritten after %s: %s\nprogram:\n%s' % (done, bad, text), None, out)
            f = gerber.read(path)
            tol, rewritten = tol + 1e-6, True
        done.append(op)
        ctx.transition(before, op, (units, round(dx * (1 if units == 'inch' else 1 / 25.4), 6),
                                    round(dy * (1 if units == 'inch' else 1 / 25.4), 6), rewritten))
        check(f, k, dx, dy, units, tol, 'result')
        if src is not None:
            check(src, old[0], old[1], old[2], old[3], old[4], 'the copied original')
            if src is f or any(p is q for p, q in zip(src.primitives, f.primitives)):
                raise Violation('the copy shares objects with its source after %s' % done)
    ctx.trace()
    return G.show(G.canon_file(f))
