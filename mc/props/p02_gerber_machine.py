"""P02: a Gerber program draws exactly the graphics objects its modal state machine defines."""
import math
from fractions import Fraction

from mc import gmodel as G
from mc import gspace as S
from mc.core import Violation

PID = 'P02'
LEVEL = 'model_checking'
RULE = ('(a) breadth-first closure of the reference graphics-state machine: every transition out of every reachable '
        'modal state, reached by its shortest command trace and followed by a probe that exposes the hidden modal '
        'state, is replayed on the real parser; (b) every command sequence up to a fixed depth, no state merging; '
        '(c) arcs with ends rounded to the format, every start angle x sweep x direction x mode; (d) programs of up to '
        'n strokes, flashes, contours or selections, at the origin and at the ends of the number range; an outcome is the list of graphics objects produced')
BOUNDS = {
    'quick': 'closure: 2x2 grid, 2 apertures, probe of 3-9 commands; sequences: depth 2 after 3 prefixes; '
             '3 radii x 48 angles x 12 sweeps; lengths up to 300',
    'thorough': 'closure: 3x3 grid, 2 apertures; sequences: depth 3 after 5 prefixes; '
                '3 radii x 48 angles x 47 sweeps; lengths up to 2000',
}
ASSUMPTIONS = (
    'absolute notation; arcs carry I/J and are circular; an aperture is selected before anything is drawn; '
    'no flash and no polarity change inside a region',
    'a contour of one straight segment encloses no area and is ignored on both sides',
)
HEADS = {
    'in24L': S.header('IN', (2, 4), 'L'),
    'mm33T': S.header('MM', (3, 3), 'T'),
    'in25D': S.header('IN', (2, 5), 'D'),
    'mm36L': S.header('MM', (3, 6), 'L'),
    'in17T': S.header('IN', (1, 7), 'T'),
    'mm66D': S.header('MM', (6, 6), 'D'),
    'in16T': S.header('IN', (1, 6), 'T'),
}
PREFIXES = {
    'none': [],
    'drawing': [['D', 10], ['c', None, 2, 0, None, None, 'D01']],
    'contour': [['D', 11], ['G36'], ['c', None, 0, 0, None, None, 'D02'], ['c', None, 2, 0, None, None, 'D01'],
                ['c', None, 2, 2, None, None, 'D01']],
    'arcs': [['D', 10], ['G75'], ['c', 'G03', 2, 2, 0, 2, 'D01']],
    'flashed': [['D', 11], ['LP', 'C'], ['c', None, 2, 2, None, None, 'D03']],
}


def cases(tier):
    quick = tier == 'quick'
    # (b) plain sequences, shortest first
    menu = S.Menu(1)
    for depth in range(0, 3 if quick else 4):
        for pname in (['none', 'contour', 'arcs'] if quick else sorted(PREFIXES)):
            for hname in sorted(HEADS) if depth < 2 else ['in24L']:
                head = HEADS[hname]
                g = G.interpret(head + PREFIXES[pname])
                for seq in S.sequences(menu, g.clone(), depth):
                    yield ['seq', hname, pname, seq]
    # arcs that are not multiples of a quarter turn
    for hname in ('mm33T', 'in24L'):
        for n in range(len(list(slanted()))):
            yield ['slant', hname, n]
    # arcs whose ends are rounded to the format
    for hname in sorted(HEADS):
        for r in (400, 1732, 12345):
            for start in range(0, 48) if not quick else range(0, 48, 1 if r == 1732 else 5):
                for sweep in range(1, 48) if not quick else (1, 3, 4, 8, 11, 12, 18, 24, 29, 36, 45, 47):
                    yield ['ring', hname, r, start, sweep]
    # long programs and wide numbers
    for hname in sorted(HEADS):
        for kind in ('strokes', 'contour', 'flashes', 'contours', 'moves', 'select', 'modal'):
            for n in (3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257,
                      300) + (() if quick else (511, 512, 513, 1000, 1001, 1024, 1025, 2000)):
                for far in (0, 1):
                    yield ['long', hname, kind, n, far]
    # (a) closure
    menu = S.Menu(1) if quick else S.Menu(2)
    for hname in (['in24L'] if quick else ['in24L', 'mm33T']):
        for idx, (canon, trace, g) in enumerate(S.closure(menu, HEADS[hname])):
            for n in range(len(menu.events(g))):
                yield ['step', hname, menu.box, idx, n]


def slanted():
    """3-4-5 lattice arcs, single and multi quadrant, both directions."""
    ring = [(5, 0), (4, 3), (3, 4), (0, 5), (-3, 4), (-4, 3), (-5, 0), (-4, -3), (-3, -4), (0, -5), (3, -4), (4, -3)]
    for func in ('G02', 'G03'):
        for a in ring:
            for b in ring:
                if a == b:
                    continue
                cross = a[0] * b[1] - a[1] * b[0]
                dot = a[0] * b[0] + a[1] * b[1]
                if func == 'G02':
                    cross = -cross
                yield [['D', 10], ['G75'], ['c', None, 10 + a[0], 10 + a[1], None, None, 'D02'],
                       ['c', func, 10 + b[0], 10 + b[1], -a[0], -a[1], 'D01']]
                if cross > 0 and dot >= 0:
                    yield [['D', 10], ['G74'], ['c', None, 10 + a[0], 10 + a[1], None, None, 'D02'],
                           ['c', func, 10 + b[0], 10 + b[1], abs(a[0]), abs(a[1]), 'D01']]


def grid(n, head):
    """n of the smallest steps of the format, in quarters of the unit"""
    return Fraction(4 * n, 10 ** head[0][2][1])


def ring(case):
    """commands of an arc about (cx, cy) with ends rounded to the format, in all modes and directions; the arcs to expect"""
    _, hname, r, start, sweep = case
    head = HEADS[hname]
    k = 10 ** head[0][2][1]
    cmds, exp = [['D', 10]], []
    ap = G.interpret(head).aps[10]
    cx, cy = 2 * r, -r - 7
    for func, sign in (('G02', -1), ('G03', 1)):
        pts = []
        for a in (start, start + sign * sweep):
            a *= math.pi / 24
            pts.append((cx + int(round(r * math.cos(a))), cy + int(round(r * math.sin(a)))))
        (x0, y0), (x1, y1) = pts
        for quad in ('G75', 'G74') if sweep <= 12 else ('G75',):
            i, j = cx - x0, cy - y0
            if quad == 'G74':
                i, j = abs(i), abs(j)
            cmds += [[quad], ['c', None, grid(x0, head), grid(y0, head), None, None, 'D02'],
                     ['c', func, grid(x1, head), grid(y1, head), grid(i, head), grid(j, head), 'D01']]
            exp.append(('arc', (Fraction(x0, k), Fraction(y0, k)), (Fraction(x1, k), Fraction(y1, k)),
                        (Fraction(cx, k), Fraction(cy, k)), 'clockwise' if sign < 0 else 'counterclockwise',
                        'multi-quadrant' if quad == 'G75' else 'single-quadrant', ap, 'dark'))
    return head + cmds, exp


def long_program(case):
    _, hname, kind, n, far = case
    head = HEADS[hname]
    a, b = head[0][2]
    step = 10 ** (a + b) // (n + 1) if far else 3

    def at(m, op, func=None):
        x, y = m * step, (m * m * 7 % (n + 3)) * step
        if far:
            x, y = 10 ** (a + b) - 1 - x, y - 10 ** (a + b) + 1
        return ['c', func, grid(x, head), grid(y, head), None, None, op]
    cmds = [['D', 10]]
    if kind == 'strokes':
        cmds += [at(0, 'D02')] + [at(m, 'D01' if m % 5 else None) for m in range(1, n + 1)]
        cmds[2][-1] = 'D01'
    elif kind == 'contour':
        cmds += [['G36'], at(0, 'D02')] + [at(m, 'D01') for m in range(1, n + 1)] + [at(0, 'D01'), ['G37']]
    elif kind == 'contours':
        cmds += [['G36']]
        for m in range(n):
            cmds += [at(m, 'D02'), at(m + 1, 'D01'), at(m + 2 if m < n - 1 else 0, 'D01'), at(m, 'D01')]
        cmds += [['G37']]
    elif kind == 'flashes':
        cmds += [at(m, 'D03') for m in range(n)]
    elif kind == 'modal':
        # every operation followed by every other, with coordinates left out
        for m in range(n):
            op, which = ('D03', 'D02', 'D01')[(m * m // 3 + m) % 3], (m // 2) % 4
            c = at(m, op)
            c[2 if which == 1 else 3 if which == 2 else 4] = None
            cmds.append(c)
    elif kind == 'moves':
        cmds += [at(m, 'D02') for m in range(n)] + [at(0, 'D01')]
    else:
        for m in range(n):
            cmds += [['D', 10 + m % 2], at(m, 'D03')]
    return head + cmds


def program(case):
    if case[0] == 'long':
        return long_program(case)
    if case[0] == 'seq':
        return HEADS[case[1]] + PREFIXES[case[2]] + case[3]
    if case[0] == 'slant':
        return HEADS[case[1]] + list(slanted())[case[2]]
    _, hname, box, idx, n = case
    menu = S.Menu(box)
    canon, trace, g = S.closure(menu, HEADS[hname])[idx]
    ev = menu.events(g)[n]
    h = g.clone()
    h.apply(ev)
    return HEADS[hname] + trace + [ev] + menu.probe(h)


def run(case, ctx):
    import gerber
    prog, arcs = ring(case) if case[0] == 'ring' else (program(case), None)
    if case[0] == 'step':
        menu = S.Menu(case[2])
        canon, trace, g = S.closure(menu, HEADS[case[1]])[case[3]]
        ev = menu.events(g)[case[4]]
        h = g.clone()
        h.apply(ev)
        ctx.transition((case[1], canon), ev, (case[1], h.canon()))
    ref = G.interpret(prog if arcs is None else prog[:2])
    exp = arcs if arcs is not None else G.visible(ref.out)
    text = G.render(prog + [['M02']])
    f = gerber.loads(text)
    ctx.trace()
    got = G.visible(G.canon_file(f))
    if not G.same(exp, got):
        raise Violation('wrong image: %s\nprogram:\n%s' % (G.first_difference(exp, got), text),
                        G.show(exp), G.show(got))
    if f.units != ref.units:
        raise Violation('file units', ref.units, f.units)
    for p in f.primitives:
        if p.units != ref.units:
            raise Violation('units of %s' % (G.canon_prim(p),), ref.units, p.units)
    return G.show(exp)
