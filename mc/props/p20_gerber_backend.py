"""P20: rendering a Gerber file to a Gerber file yields a program that draws the same image."""
import zlib
from itertools import product

from mc import gdocs as D
from mc import gmodel as G
from mc import gspace as S
from mc.core import Violation

PID = 'P20'
LEVEL = 'model_checking'
RULE = ('(a) every transition of the closed graphics-state machine (as in P02), the program then rendered through the '
        'Gerber backend and read back; (b) every sequence of drawing pieces, both ways of writing flashes; (c) every '
        'ordered pair and triple of apertures; (d) every ordered pair of macro apertures that differ in one parameter, or of '
        'standard apertures that differ in one modifier, by much or by little; (e) programs of n apertures; (f) two programs '
        'drawn one after the other; '
        'outcome = the rendered text')
BOUNDS = {'quick': '(a) closure of the 2x2 grid; (b) sequences <= 3 of 9 pieces; (c) ordered pairs of 28 apertures; '
                   '(d) 66 macro variants, pairs within a family; (e) 5 kinds x 26 numbers up to 200',
          'thorough': '(a) closure of the 3x3 grid; (b) sequences <= 4; (c) ordered triples of 28 apertures; (d) all '
                      'ordered pairs of 66 macro variants; (e) as quick'}
ASSUMPTIONS = ('the output settings use the units of the file and can represent its coordinates',
               'straight and circular strokes use solid apertures as the format demands')
HEADS = {'in24L': ('IN', (2, 4), 'L'), 'mm33T': ('MM', (3, 3), 'T')}
PIECES = sorted(D.PIECES)
# families of macro primitives; each variant changes one thing
FAM = {
    '1': [[1, 0.5, 0, 0], [1, 0.625, 0, 0], [1, 0.5, 0.25, 0], [1, 0.5, 0, 0.25], [0, 0.5, 0, 0], [1, 0.505, 0, 0]],
    '20': [[1, 0.25, 0, 0, 1, 0, 0], [1, 0.125, 0, 0, 1, 0, 0], [1, 0.25, 0.25, 0, 1, 0, 0], [1, 0.25, 0, 0, 1, 0, 90],
           [1, 0.25, 0, 0, 0.75, 0.5, 0], [0, 0.25, 0, 0, 1, 0, 0], [1, 0.25, 1, 0, 0, 0, 0], [1, 0.25, 0, 0, 1, 0, 30]],
    '21': [[1, 1, 0.5, 0, 0, 0], [1, 0.5, 1, 0, 0, 0], [1, 1, 0.5, 0.25, 0, 0], [1, 1, 0.5, 0, 0, 45],
           [1, 1, 0.5, 0, 0, -45], [0, 1, 0.5, 0, 0, 0], [1, 1, 0.5, 0, 0, 30], [1, 1.0625, 0.5, 0, 0, 0]],
    '4': [[1, 3, 0, 0, 1, 0, 0, 1, 0, 0, 0], [1, 3, 0, 0, 1, 0, 1, 1, 0, 0, 0], [1, 3, 0, 0, 1, 0, 0, 1, 0, 0, 90],
          [0, 3, 0, 0, 1, 0, 0, 1, 0, 0, 0], [1, 4, 0, 0, 1, 0, 1, 1, 0, 1, 0, 0, 0],
          [1, 3, 0, 0, 0, 1, 1, 0, 0, 0, 0]],
    '5': [[1, 6, 0, 0, 1, 0], [1, 5, 0, 0, 1, 0], [1, 6, 0.25, 0, 1, 0], [1, 6, 0, 0, 0.75, 0], [1, 6, 0, 0, 1, 15],
          [0, 6, 0, 0, 1, 0], [1, 6, 0, 0, 1, 30]],
    '7': [[0, 0, 1, 0.5, 0.125, 0], [0, 0, 1, 0.25, 0.125, 0], [0, 0, 1, 0.5, 0.25, 0], [0, 0, 1, 0.5, 0.125, 45],
          [0.25, 0, 1, 0.5, 0.125, 0], [0, 0, 1.25, 0.5, 0.125, 0]],
}
VARIANTS = [(code, v) for code in sorted(FAM) for v in FAM[code]] + \
    [('multi', [(a, FAM[a][0]), (b, FAM[b][0])]) for a in ('1', '20', '21', '5') for b in ('1', '21', '4', '7')] + \
    [('multi', [('1', FAM['1'][0])] * n) for n in (3, 4)] + \
    [('multi', [('1', FAM['1'][0])] * n + [('1', FAM['1'][k])]) for n in (5, 6) for k in (1, 2, 4)]


# apertures of one template which differ in one modifier, or have two of them swapped
HOLES = [[], [0.25], [0.125], [0.25, 0.125], [0.125, 0.25], [0.25, 0.25], [0.25, 0.375], [0.375, 0.125]]
MODS = [['C', [d] + h] for d in (1, 0.75) for h in HOLES] + \
    [[s, list(wh) + h] for s in 'RO' for wh in ((1, 0.5), (0.5, 1), (1, 1), (1, 0.625)) for h in HOLES] + \
    [['P', [1, n] + r] for n in (3, 6) for r in [[], [0], [30]] + [[a] + h for a in (0, 30) for h in HOLES[1:]]]
# apertures which differ by very little
FULL = {'C': [1, 0.25, 0.125], 'R': [1, 0.5, 0.25, 0.125], 'O': [0.5, 1, 0.25, 0.125], 'P': [1, 6, 30, 0.25, 0.125]}
CLOSE = [[s, p[:k] + [p[k] + d] + p[k + 1:]] for s, p in sorted(FULL.items()) for k in range(len(p)) if (s, k) != ('P', 1)
         for d in (0, 0.001, 0.0001, -0.00004, 0.00001, 0.000001)]


# macros with commands that have no drawable form in this library, alone and beside ones that have
MOIRES = [['6', 0, 0, 1, 0.125, 0.0625, 3, 1.25, 0.03125, 0]]
MOIRES += [MOIRES[0][:k] + [v] + MOIRES[0][k + 1:] for k, v in ((1, 0.25), (2, -0.25), (3, 1.5), (4, 0.0625), (5, 0.125), (6, 2),
                                                              (7, 0.0625), (8, 1.5), (9, 30))]
LOWLEFTS = [['22', 1, 1, 0.5, -0.25, 0.125, 0]]
LOWLEFTS += [LOWLEFTS[0][:k] + [v] + LOWLEFTS[0][k + 1:] for k, v in ((1, 0), (2, 0.75), (3, 0.25), (4, 0.5), (5, -0.5), (6, 45))]
UNDRAWN = [[m] for m in MOIRES + LOWLEFTS] + [[['1', 1, 0.5, 0, 0], m] for m in MOIRES[:4] + LOWLEFTS[:4]] + \
    [[MOIRES[0], MOIRES[1]], [MOIRES[1], MOIRES[0]], [['1', 1, 0.5, 0, 0]], [MOIRES[0], ['1', 1, 0.5, 0, 0], LOWLEFTS[0]]]


def flash_commands(f, settings):
    """for each flash of a macro, its position and the commands of its macro"""
    out = []
    for p in f.primitives:
        cmds = D.macro_written('%' + p.stmt.to_gerber(settings).strip('%') + '%')
        out.append((tuple(p.position), [c for c in list(cmds.values())[0] if c[0] != '0']))
    return out


def macro_text(v):
    code, p = v
    if code == 'multi':
        return ''.join(macro_text(x) for x in p)
    return ','.join([code] + ['%g' % x for x in p]) + '*'


def macro_ref(v):
    code, p = v
    if code == 'multi':
        return [r for x in p for r in macro_ref(x)]
    return [[code] + list(p)]


def cases(tier):
    quick = tier == 'quick'
    for n in range(0, 4 if quick else 5):
        for combo in product(PIECES, repeat=n):
            for h in sorted(HEADS) if n < 3 else ['in24L']:
                for flash in (0, 1) if n < 3 else (sum(map(len, combo)) % 2,):
                    yield ['doc', h, ['r', 'c'], list(combo), flash]
    aps = sorted(D.APERTURES)
    for n in (1, 2) if quick else (1, 2, 3):
        for combo in product(aps, repeat=n):
            for h in sorted(HEADS) if n < 2 else ['in24L']:
                yield ['doc', h, list(combo), ['APS'], n % 2]
    for i in range(len(VARIANTS)):
        for j in range(len(VARIANTS)):
            if not quick or VARIANTS[i][0] == VARIANTS[j][0]:
                yield ['macro', i, j]
    for i in range(len(MODS)):
        for j in range(len(MODS)):
            if not quick or MODS[i][0] == MODS[j][0]:
                yield ['mods', i, j]
    for i in range(len(CLOSE)):
        for j in range(len(CLOSE)):
            if CLOSE[i][0] == CLOSE[j][0] and (not quick or i // 6 == j // 6 or j % 6 == 4):
                yield ['close', i, j]
    for i in range(len(UNDRAWN)):
        for j in range(len(UNDRAWN)):
            yield ['undrawn', i, j]
    for a in product(PIECES, repeat=2):
        for b in product(PIECES, repeat=2 if not quick else 1):
            yield ['join', 'in24L', ['r', 'c'], list(a), list(b)]
    for kind in D.MANY:
        for n in D.COUNTS:
            for flash in (0, 1):
                yield ['many', kind, n, 'IN' if flash else 'MM', flash]
    menu = S.Menu(1) if quick else S.Menu(2)
    for h in ['in24L'] if quick else ['in24L', 'mm33T']:
        head = S.header(*HEADS[h])
        for idx, (canon, trace, g) in enumerate(S.closure(menu, head)):
            for n in range(len(menu.events(g))):
                yield ['step', h, menu.box, idx, n]


def render(f, settings, condensed, more=None):
    from gerber.render.rs274x_backend import Rs274xContext
    c = Rs274xContext(settings)
    c.condensed_flash = condensed
    c.explicit_region_move_end = len(f.statements) % 3 == 1
    for p in f.primitives:
        c.render(p)
    out = c.dump().getvalue()
    if more is not None:
        for p in more.primitives:
            c.render(p)
        out = c.dump().getvalue()
    if c.dump().getvalue() != out:
        raise Violation('writing a rendered file twice', out, c.dump().getvalue())
    return out


def run(case, ctx):
    import gerber
    from gerber.cam import FileSettings
    from mc.props import p04_roundtrip as P04
    condensed = True
    if case[0] == 'step':
        prog, canon, ev, k = P04.program(case)
        ctx.transition((case[1], canon), ev, (case[1], k))
        exp = D.transform(G.interpret(prog).out, 1.0, 0.0, 0.0)
        text = D.text_of(prog)
    elif case[0] == 'doc':
        prog = P04.program(case[:4] + ['own'])
        exp = D.transform(D.build(prog).out, 1.0, 0.0, 0.0)
        condensed = bool(case[4])
        text = D.text_of(prog)
    elif case[0] == 'many':
        prog = D.many(*case[1:4])
        exp = D.transform(D.build(prog).out, 1.0, 0.0, 0.0)
        condensed = bool(case[4])
        text = D.text_of(prog)
    elif case[0] in ('mods', 'close'):
        a, b = (MODS if case[0] == 'mods' else CLOSE)[case[1]], (MODS if case[0] == 'mods' else CLOSE)[case[2]]
        prog = [['FS', 'L', [2, 4]], ['MO', 'IN'], ['ADx', 10] + a, ['ADx', 11] + b]
        for k, (d, x, y) in enumerate(((10, 0, 0), (11, 4, 0), (10, 0, 4), (10, 4, 4), (11, 8, 0))):
            prog += [['D', d], ['c', 'G01', x, y, None, None, 'D03']]
        condensed = bool(case[1] % 2)
        exp = D.transform(D.build(prog).out, 1.0, 0.0, 0.0)
        text = D.text_of(prog)
    elif case[0] == 'join':
        # two files drawn one after the other by one backend
        prog = P04.program(['doc'] + case[1:4] + ['own'])
        other = P04.program(['doc'] + case[1:3] + [case[4], 'own'])
        exp = D.transform(D.build(prog).out + D.build(other).out, 1.0, 0.0, 0.0)
        text = D.text_of(prog)
        more = gerber.loads(D.text_of(other))
        f = gerber.loads(text)
        settings = FileSettings(units=f.units, format=(2, 5), zero_suppression='leading')
        out = render(f, settings, len(case[3]) % 2 == 1, more)
        ctx.trace()
        bad = D.compare(exp, gerber.loads(out), ignore_points=True)
        if bad:
            raise Violation('rendered programs draw something else: %s\nprograms:\n%s\n%s\nrendered:\n%s'
                            % (bad, text, D.text_of(other), out))
        return out
    elif case[0] == 'undrawn':
        a, b = UNDRAWN[case[1]], UNDRAWN[case[2]]
        text = ('%%FSLAX24Y24*%%\n%%MOIN*%%\n%%AMA*\n%s%%\n%%AMB*\n%s%%\n%%ADD10A*%%\n%%ADD11B*%%\nD10*\nX0Y0D03*\n'
                'D11*\nX30000Y10000D03*\nD10*\nX10000Y50000D03*\nD11*\nX-10000Y0D03*\nM02*\n'
                % tuple(''.join(','.join([q[0]] + ['%g' % v for v in q[1:]] + (['0'] if q[0] == '1' else [])) + '*\n' for q in m)
                        for m in (a, b)))
        exp = None
        condensed = (case[1] + case[2]) % 2 == 0
        f = gerber.loads(text)
        settings = FileSettings(units=f.units, format=(2, 5), zero_suppression='leading')
        want = [((x, y), [[q[0]] + [float(v) for v in q[1:]] + ([0.0] if q[0] == '1' else []) for q in m])
                for x, y, m in ((0, 0, a), (3, 1, b), (1, 5, a), (-1, 0, b))]
        out = render(f, settings, condensed)
        ctx.trace()
        for what, g in (('first reading', f), ('rendered file', gerber.loads(out))):
            got = flash_commands(g, settings)
            got = [(q, [c + [0.0] * (c[0] == '1' and len(c) == 5) for c in m]) for q, m in got]
            if not G.same(want, got):
                raise Violation('%s: flashed macros: %s\nprogram:\n%s\nrendered:\n%s'
                                % (what, G.first_difference(want, got), text, out), G.show(want), G.show(got))
        return out
    else:
        a, b = VARIANTS[case[1]], VARIANTS[case[2]]
        text = ('%%FSLAX24Y24*%%\n%%MOIN*%%\n%%AMA*\n%s%%\n%%AMB*\n%s%%\n%%ADD10A*%%\n%%ADD11B*%%\nD10*\nX0Y0D03*\n'
                'D11*\nX30000Y10000D03*\nD10*\nX10000Y50000D03*\nD11*\nX-10000Y0D03*\nM02*\n'
                % (macro_text(a).replace('*', '*\n'), macro_text(b).replace('*', '*\n')))
        exp = None
    f = gerber.loads(text)
    if exp is not None:
        bad = D.compare(exp, f)
        if bad:
            raise Violation('first reading: %s\nprogram:\n%s' % (bad, text))
    before = G.canon_file(f)
    written = [s.to_gerber(f.settings) for s in f.statements]
    zeros, fmt = [('leading', (3, 5)), ('trailing', (3, 5)), ('leading', (2, 6)), ('trailing', (4, 6))][zlib.crc32(text.encode()) % 4]
    settings = FileSettings(units=f.units, format=fmt, zero_suppression=zeros)
    if case[0] == 'macro' and case[2] >= case[1]:
        # aperture groups that were not made from a macro statement are written from their shapes
        bare = gerber.loads(text)
        for q in bare.primitives:
            q.stmt = None
        got = G.canon_file(gerber.loads(render(bare, settings, condensed)))
        if not G.same(before, got, 1e-6, 2e-6):
            raise Violation('aperture groups without a statement: %s\nprogram:\n%s'
                            % (G.first_difference(before, got), text))
    out = render(f, settings, condensed)
    if not G.same(before, G.canon_file(f)):
        raise Violation('rendering changed the file: %s\nprogram:\n%s' % (G.first_difference(before, G.canon_file(f)), text))
    if [s.to_gerber(f.settings) for s in f.statements] != written:
        raise Violation('rendering changed the commands of the file\nprogram:\n%s' % text, written,
                        [s.to_gerber(f.settings) for s in f.statements])
    f2 = gerber.loads(out)
    ctx.trace()
    if exp is not None:
        bad = D.compare(exp, f2, ignore_points=True)
    else:
        bad = None if G.same(before, G.canon_file(f2), 1e-6, 1e-6) else \
            G.first_difference(before, G.canon_file(f2))
    if bad:
        raise Violation('rendered program draws something else: %s\nprogram:\n%s\nrendered:\n%s' % (bad, text, out))
    if f2.units != f.units:
        raise Violation('units', f.units, f2.units)
    return out
