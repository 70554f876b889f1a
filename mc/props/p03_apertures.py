"""P03: every flash and stroke uses exactly the aperture its D-code was defined with."""
from itertools import product

from mc import gmodel as G
from mc.core import Violation

PID = 'P03'
LEVEL = 'model_checking'
RULE = ('every standard aperture template x parameter lattice x hole variant, and every ordered pair of templates '
        'with every schedule of selections, flashes, strokes and polarity changes up to a fixed length; state = '
        '(aperture dictionary, selected aperture, polarity, position); the same for pairs with macros, and macros of all '
        'kinds of names; programs of n apertures of five kinds, each selected twice; holes of every size up to 1.5 times the aperture; names and codes that are defined again; outcome = the list of objects drawn')
BOUNDS = {'quick': 'pairs of 14 templates, schedules of <= 3 events, 26 numbers of apertures up to 200',
          'thorough': 'pairs of all templates, schedules of <= 4 events, all numbers of apertures below 250'}
ASSUMPTIONS = ('an aperture is defined before it is used; hole parameters as the format allows (none, round, rectangular)',)

HOLES = [[], [0.25], [0.25, 0.125]]


def templates(full):
    lens = [1, 0.5, 0.0625] if full else [1, 0.5]
    for d in lens + [2.125]:
        for h in HOLES:
            yield ['C', [d] + h]
    for shape in 'RO':
        for w, hgt in product(lens, lens):
            for h in HOLES:
                yield [shape, [w, hgt] + h]
    for sides in ((3, 4, 6, 8, 12) if full else (3, 6)):
        for rotation in (None, 0, 15, -30, 45.5):
            if rotation is None:
                yield ['P', [1, sides]]
            else:
                for h in HOLES:
                    yield ['P', [0.5, sides, rotation] + h]


def small():
    return [['C', [1]], ['C', [0.5, 0.25]], ['C', [0.5, 0.25, 0.125]], ['R', [1, 0.5]], ['R', [1, 0.5, 0.25]],
            ['R', [0.5, 1, 0.25, 0.125]], ['O', [1, 0.5]], ['O', [0.5, 1, 0.125]], ['O', [1, 1, 0.125, 0.25]],
            ['P', [1, 6]], ['P', [1, 5, 30]], ['P', [1, 3, -15, 0.25]], ['P', [1, 4, 45, 0.25, 0.125]], ['C', [0]]]


NAMES = ['A', 'X', 'D', 'M', '_', '$', '.', 'c', 'A1', 'C1', 'CC', 'R2', 'OC8', 'P0', 'a.b', 'T-1+2', 'FSLAX', 'LPD',
         'AMA', 'MAC', 'MAC1', 'MAC10', 'Mac', 'ADD10', 'THERMAL_80', '$1']
EVENTS = ['D0', 'D1', 'flash', 'flashhere', 'flash2', 'draw', 'dark', 'clear', 'G54']


def cases(tier):
    full = tier != 'quick'
    for t in templates(full):
        for d in (10, 11, 99, 999):
            for units in ('IN', 'MM'):
                yield ['one', t, d, units]
    temps = list(templates(False)) if full else small()
    n = 4 if full else 3
    scheds = [s for k in range(1, n + 1) for s in product(range(len(EVENTS)), repeat=k)]
    # all schedules for three structurally different pairs
    for pair in ((0, 3), (8, 12), (1, 1)):
        for s in scheds:
            yield ['pair', small()[pair[0]], small()[pair[1]], list(s)]
    # all pairs for one schedule that uses both apertures in both ways
    for a in temps:
        for b in temps:
            for s in ([0, 2, 1, 4, 7, 0, 3, 5, 1, 5],):
                yield ['pair', a, b, s]
    # late definition: the second aperture is defined between uses of the first
    for a in temps:
        for b in temps:
            yield ['late', a, b]
    # all kinds of apertures with macros (no strokes)
    from mc import gdocs as D
    keys = sorted(D.APERTURES)
    for a in keys:
        for b in keys:
            yield ['mix', a, b, [2, 1, 2, 4, 7, 0, 2, 4, 1, 6, 3]]
    flashes = [s for s in scheds if 5 not in s]
    for a, b in (('DONUT', 'DONUT2'), ('TARGET', 'CROSS'), ('BOX', 'c'), ('THERM', 'TRI')):
        for s in flashes:
            yield ['mix', a, b, list(s)]
    # holes of every size, up to larger than the aperture
    for t in HOLED:
        for n in range(1, 25 if not full else 49):
            yield ['one', [t[0], t[1] + [n / 16.0]], 10, 'IN' if n % 2 else 'MM']
            for m in range(1, 25, 2 if not full else 1):
                yield ['one', [t[0], t[1] + [n / 16.0, m / 16.0]], 10, 'MM' if m % 3 else 'IN']
    # definitions that are replaced by later ones
    for kind in ('macro', 'code', 'both'):
        for n in range(1, 6 if not full else 7):
            for defs in product(range(3), repeat=n):
                yield ['redef', kind, list(defs)]
    for kind in D.MANY:
        for n in D.COUNTS if not full else range(1, 250):
            for units in ('IN', 'MM'):
                yield ['many', kind, n, units]
    # macros found by their names
    for i, a in enumerate(NAMES):
        for j, b in enumerate(NAMES):
            if i != j:
                for par in range(3):
                    yield ['names', a, b, par]


HOLED = [['C', [1]], ['R', [1, 0.5]], ['O', [0.5, 1]], ['O', [1, 1]], ['P', [1, 6, 0]], ['P', [1, 3, 15]]]


def redefined(case, ctx):
    """macros of the same name, or apertures of the same code, one after the other, all in use up to the next"""
    import gerber
    _, kind, defs = case
    text, want = '%FSLAX24Y24*%\n%MOIN*%\n', []
    for k, v in enumerate(defs):
        name = 'M' if kind != 'code' else 'M%d' % k
        code = 10 if kind != 'macro' else 10 + k
        size = (0.25, 0.5, 1)[v]
        text += '%%AM%s*1,1,%s,0,0*%%\n%%ADD%d%s*%%\nD%d*\nX%d0000Y0D03*\n' % (name, size, code, name, code, k)
        want.append(size)
        if k and kind == 'macro':
            # the aperture made of the macro as it was
            text += 'D%d*\nX%d0000Y10000D03*\n' % (code - 1, k)
            want.append(want[-2] if k == 1 else want[-3])
    f = gerber.loads(text + 'M02*\n')
    ctx.trace()
    got = [p.primitives[0].diameter for p in f.primitives]
    if got != want:
        raise Violation('sizes of the flashes:\n%s' % text, want, got)
    return repr(want)


def program(case):
    head = [['FS', 'L', [2, 4]], ['MO', 'IN']]
    if case[0] == 'one':
        _, t, d, units = case
        head[1][1] = units
        return head + [['AD', d] + t, ['D', d], ['c', None, 0, 0, None, None, 'D03'],
                       ['c', None, 4, -8, None, None, 'D03'], ['LP', 'C'], ['c', None, 8, 4, None, None, 'D01'],
                       ['c', None, None, 12, None, None, 'D03']]
    if case[0] == 'late':
        return head + [['AD', 10] + case[1], ['D', 10], ['c', None, 4, 4, None, None, 'D03'],
                       ['AD', 11] + case[2], ['c', None, 8, 4, None, None, 'D03'], ['D', 11],
                       ['c', None, 12, 4, None, None, 'D03'], ['D', 10], ['c', None, 0, 4, None, None, 'D03']]
    _, a, b, sched = case
    p = head + [['AD', 10] + a, ['AD', 11] + b, ['D', 10]]
    for k in sched:
        e = EVENTS[k]
        p.append({'D0': ['D', 10], 'D1': ['D', 11], 'G54': ['G54', 11],
                  'flash': ['c', None, 4, 8, None, None, 'D03'],
                  'flash2': ['c', None, -12, None, None, None, 'D03'],
                  'flashhere': ['c', None, None, None, None, None, 'D03'],
                  'draw': ['c', None, 8, -4, None, None, 'D01'],
                  'dark': ['LP', 'D'], 'clear': ['LP', 'C']}[e])
    return p + [['c', None, 20, 20, None, None, 'D03']]


def mix(case, ctx):
    import gerber
    from mc import gdocs as D
    if case[0] == 'many':
        cmds = D.many(*case[1:])
    else:
        _, a, b, sched = case
        cmds = D.head('IN', (2, 4), 'L', [a, b])
        cmds = cmds + program(['pair', ['C', [1]], ['C', [1]], sched])[4:]
    g = D.build(cmds)
    text = D.text_of(cmds)
    f = gerber.loads(text)
    ctx.trace()
    bad = D.compare(D.transform(g.out, 1.0, 0.0, 0.0), f)
    if bad:
        raise Violation('%s\nprogram:\n%s' % (bad, text))
    if D.units_of(f) - {g.units}:
        raise Violation('units\n%s' % text, g.units, D.units_of(f))
    return case[1:]


def names(case, ctx):
    """two macros; the aperture of each D-code must come from the macro of that name (and use its own parameters)"""
    import gerber
    _, a, b, par = case
    text = '%FSLAX24Y24*%\n%MOIN*%\n'
    if par == 0:
        text += '%%AM%s*\n1,1,0.5,0,0*%%\n%%AM%s*\n1,1,1,0,0*%%\n%%ADD10%s*%%\n%%ADD11%s*%%\n' % (a, b, a, b)
        want = [0.5, 1]
    elif par == 1:
        text += '%%AM%s*1,1,$1,0,0*%%\n%%AM%s*1,1,$2,0,0*%%\n%%ADD11%s,0.5X2*%%\n%%ADD10%s,1X0.75*%%\n' % (a, b, b, a)
        want = [1, 2]
    else:
        text += '%%AM%s*1,1,$1,0,0*%%\n%%ADD10%s,0.25*%%\n%%AM%s*1,1,0.125,0,0*%%\n%%ADD11%s*%%\n' % (a, a, b, b)
        want = [0.25, 0.125]
    text += 'D10*\nX0Y0D03*\nD11*\nX10000Y0D03*\nM02*\n'
    f = gerber.loads(text)
    ctx.trace()
    got = [[s.diameter for s in p.primitives] for p in f.primitives]
    if got != [[w] for w in want]:
        raise Violation('macros of the apertures:\n%s' % text, want, got)
    return repr((a, b, par, got))


def run(case, ctx):
    import gerber
    if case[0] == 'names':
        return names(case, ctx)
    if case[0] == 'redef':
        return redefined(case, ctx)
    if case[0] in ('mix', 'many'):
        return mix(case, ctx)
    prog = program(case)
    g = G.Gerber()
    prev = None
    for c in prog:
        g.apply(c)
        if c[0] in ('D', 'G54', 'c', 'LP'):
            canon = (g.ap, g.aps.get(g.ap), g.pol, g.pos, tuple(sorted(g.aps.items())))
            if prev is not None:
                ctx.transition(prev, c, canon)
            prev = canon
    text = G.render(prog + [['M02']])
    f = gerber.loads(text)
    ctx.trace()
    got = G.canon_file(f)
    if not G.same(g.out, got):
        raise Violation('%s\nprogram:\n%s' % (G.first_difference(g.out, got), text), G.show(g.out), G.show(got))
    for p in f.primitives:
        if p.units != g.units or (hasattr(p, 'aperture') and p.aperture.units != g.units):
            raise Violation('units of %s' % (G.canon_prim(p),), g.units, p.units)
    return G.show(g.out)
