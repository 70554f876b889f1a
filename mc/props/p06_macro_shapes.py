"""P06: a flashed aperture macro is the union/difference of its primitives, placed at the flash point."""
from itertools import product

from mc.core import Violation
from mc import gmodel as G
from mc.macros import matches, near, prim_text, reference

PID = 'P06'
LEVEL = 'exploration'
RULE = ('every macro of one primitive (6 kinds x geometry lattice x rotation x exposure) and every ordered pair '
        '(triple) of representative primitives, flashed twice at different points with both polarities in both '
        'units; outcome = geometry of the flashed group')
BOUNDS = {'quick': 'single primitives on the full lattice, pairs of 14 representatives',
          'thorough': 'finer lattice, triples of 14 representatives'}
ASSUMPTIONS = (
    'supported primitive kinds: circle, vector line, centre line, outline, polygon, thermal (lower-left line and '
    'moire have no drawable form in this library)',
    'polygons and thermals are rotated only when centred on the macro origin, as the format requires',
)


def singles(full):
    pos = [(0, 0), (1, 0), (-0.5, 2)] + ([(0, -1.25)] if full else [])
    rots = [0, 90, 30, -45] + ([180, 270, 359.5] if full else [])
    for ex in (1, 0):
        for d in (0.5, 2):
            for p in pos:
                for r in [None] + rots:
                    yield ['1', ex, d, p[0], p[1]] + ([] if r is None else [r])
        for code in ('20', '2'):
            for w in (0.5, 1):
                for s, e in product(pos, pos):
                    if s != e:
                        for r in rots:
                            yield [code, ex, w, s[0], s[1], e[0], e[1], r]
        for w, h in ((1, 0.5), (0.5, 2), (1, 1)):
            for p in pos:
                for r in rots:
                    yield ['21', ex, w, h, p[0], p[1], r]
        for pts in outlines():
            for r in rots:
                yield ['4', ex, len(pts) - 1] + [v for q in pts for v in q] + [r]
        for n in (3, 4, 6, 12):
            for d in (1, 0.5):
                for p in pos:
                    for r in rots if p == (0, 0) else (0,):
                        yield ['5', ex, n, p[0], p[1], d, r]
    for p in pos:
        for od, idm, gap in ((2, 1, 0.5), (1, 0.5, 0.125), (2, 1, 0), (2, 1, 0.6875), (2, 1, 0.75), (2, 1, 1), (2, 0.5, 1.25),
                             (2, 0, 0.5), (3, 0.125, 2), (1, 0.9375, 0.0625)):
            for r in rots if p == (0, 0) else (0,):
                yield ['7', p[0], p[1], od, idm, gap, r]


def outlines():
    yield [(0, 0), (1, 0), (1, 1), (0, 0)]
    yield [(-1, -1), (1, -1), (1, 1), (-1, 1), (-1, -1)]
    yield [(0, 0), (2, 0), (2, 1), (1, 1), (1, 2), (0, 2), (0, 0)]
    yield [(0.5, 0.25), (-0.125, 1), (-2, -0.5), (0.5, 0.25)]


REPS = [['1', 1, 2, 0, 0], ['1', 0, 1, 0.5, 0], ['20', 1, 0.5, -1, 0, 1, 0, 45], ['2', 0, 0.25, 0, -1, 0, 1, 0],
        ['21', 1, 2, 0.5, 0, 0, 30], ['21', 0, 0.5, 0.5, 1, 1, 90], ['4', 1, 3, 0, 0, 1, 0, 1, 1, 0, 0, 0],
        ['4', 0, 3, 0, 0, 1, 0, 1, 1, 0, 0, 90], ['5', 1, 6, 0, 0, 1, 15], ['5', 0, 3, 1, 0, 1, 0],
        ['7', 0, 0, 2, 1, 0.25, 45], ['0', 'a comment'], ['1', 1, 0.5, -2, -2, 30], ['21', 1, 1, 1, 0, 0, 0]]


def cases(tier):
    full = tier != 'quick'
    for s in singles(full):
        yield [[s]]
    for k in (2, 3) if full else (2,):
        for combo in product(REPS, repeat=k):
            if any(p[0] not in '0' for p in combo):
                yield [list(combo)]
    for a in REPS:
        yield [[a] * 3 + [REPS[0]]]


def run(case, ctx):
    import gerber
    prims = case[0]
    outcome = None
    for units in ('IN', 'MM'):
        text = '%%FSLAX24Y24*%%\n%%MO%s*%%\n%%AMMAC1*%s*%%\n%%ADD10MAC1*%%\nD10*\n' % (
            units, '*\n'.join(prim_text(p) for p in prims))
        text += 'X0Y0D03*\nX20000Y-10000D03*\n%LPC*%\nX-5000Y30000D03*\nM02*\n'
        f = gerber.loads(text)
        if len(f.primitives) != 3:
            raise Violation('3 flashes, %d objects' % len(f.primitives))
        for p, at, pol in zip(f.primitives, ((0, 0), (2, -1), (-0.5, 3)), ('dark', 'dark', 'clear')):
            refs = [r for q in prims for r in reference(q, at)]
            if type(p).__name__ != 'AMGroup' or p.level_polarity != pol or not near(p.position, at):
                raise Violation('flash at %r' % (at,), ('AMGroup', pol, at),
                                (type(p).__name__, p.level_polarity, p.position))
            if p.units != f.units or any(s.units != f.units for s in p.primitives):
                raise Violation('units of the group and its parts', f.units, [s.units for s in p.primitives])
            if len(refs) != len(p.primitives):
                raise Violation('number of parts', refs, [G.canon_prim(s) for s in p.primitives])
            for r, s in zip(refs, p.primitives):
                if not matches(r, s):
                    raise Violation('macro primitive drawn wrongly, flash at %r\n%s' % (at, text), r, G.canon_prim(s))
        outcome = repr(refs)
    return outcome
