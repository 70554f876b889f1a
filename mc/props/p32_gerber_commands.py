"""P32: every command of a Gerber file is kept, in order, with its kind and its parameters."""
import json
from fractions import Fraction
from itertools import product

from mc import gdocs as D
from mc import gmodel as G
from mc import gspace as S
from mc.core import Violation
from mc.props import p04_roundtrip as P04

PID = 'P32'
LEVEL = 'model_checking'
RULE = ('every program of P04 (each transition of the closed graphics-state machine; sequences of drawing and non-drawing '
        'commands; every aperture), every sequence of rarely used commands from a catalogue, every form of a coordinate '
        'command in every modal state, every format declaration, under every history of conversions and translations: the '
        'statements are the commands with their parameters; the statements written and read again are the same; the JSON '
        'and text dumps of the parser list the same statements. State = the modal state before each command; outcome = the statements')
BOUNDS = {'quick': 'programs as P04 quick; sequences of <= 2 of 88 rare commands; 4 functions x 16 field sets x 4 operations x 3 '
                   'modal operations; 4 x 2 x 36 format declarations; histories of <= 2 of 3 operations',
          'thorough': 'as quick with all headers and layouts, sequences of 3 of 24 rare commands, histories of <= 4'}
ASSUMPTIONS = ('as P04; extended commands the library does not know stand in a block of their own',
               'G70 and G71 name the units of the file',
               'a coordinate command without an operation may be reported with the modal one; one with a function alone has none')
HEADS = {'in24L': ('IN', (2, 4), 'L'), 'mm33T': ('MM', (3, 3), 'T'), 'in25D': ('IN', (2, 5), 'D'), 'mm46L': ('MM', (4, 6), 'L')}
OPS = ('inch', 'metric', 'offset')
VALUES = (None, '0', '1.5', '-0.25', '+2', '100.00001')


def rare():
    """[(text of the command, statement)]; 'U' stands for the units of the file"""
    out = []
    for t in ('IN', 'LN'):
        for n in ('x', 'my image', 'A_b-1.2(3)', 'a,b', 'X1Y2D01', 'IN', '1'):
            out.append((['praw', t + n + '*'], (t, n)))
    for v, k in (('POS', 'positive'), ('NEG', 'negative')):
        out.append((['praw', 'IP%s*' % v], ('IP', k)))
    for v in ('AXBY', 'AYBX'):
        out.append((['praw', 'AS%s*' % v], ('AS', v)))
    for v in ('0', '90', '180', '270'):
        out.append((['praw', 'IR%s*' % v], ('IR', int(v))))
    for a, b in product((None, 0, 1), repeat=2):
        out.append((['praw', 'MI%s%s*' % ('' if a is None else 'A%d' % a, '' if b is None else 'B%d' % b)], ('MI', a or 0, b or 0)))
    for t, default, values in (('OF', 0.0, VALUES), ('SF', 1.0, (None, '1', '0.5', '3.25'))):
        for a, b in product(values, repeat=2):
            if t == 'OF' and None not in (a, b) and (VALUES.index(a) + VALUES.index(b)) % 2:
                continue
            out.append((['praw', t + ('' if a is None else 'A' + a) + ('' if b is None else 'B' + b) + '*'],
                        (t, default if a is None else ('len' if t == 'OF' else 'num', float(a), None),
                         default if b is None else ('len' if t == 'OF' else 'num', float(b), None))))
    for v, k in (('C', 'clear'), ('D', 'dark')):
        out.append((['LP', v], ('LP', k)))
    for t in ('', ' ', ' two  blanks ', ' X1Y2D01', ' G04 G36', 'Ucamco: x=1,y', ' # @ !', ' D10'):
        out.append((['G04', t], ('COMMENT', t)))
    for t in ('TF.FileFunction,Copper,L1,Top', 'TA.AperFunction,SMDPad', 'TO.N,GND', 'TD', 'TD.AperFunction', 'SRX2Y3I1.5J2', 'SR',
              'LR45', 'LS0.5', 'LMN', 'ABD12', 'QQ'):
        out.append((['praw', t + '*'], ('UNKNOWN', '%' + t + '*%')))
    for t in ('G99*', 'G05*', 'M05*', 'N10*', 'abc*', 'A1*', 'G111*', 'M30*'):
        out.append((['raw', t], ('UNKNOWN', t)))
    for t in ('G90*', 'G91*'):
        out.append((['raw', t], ('DEPRECATED', t)))
    for t in ('M00*', 'M01*', 'M02*', 'M0*', 'M2*'):
        out.append((['raw', t], ('EOF',)))
    out.append((['units'], ('MO', 'U')))
    for d in (10, 11):
        out.append((['D', d], ('APERTURE', d)))
        out.append((['G54', d], ('APERTURE', d)))
    out.append((['raw', 'G55D11*'], ('APERTURE', 11)))
    for k, v in (('G74', 'single-quadrant'), ('G75', 'multi-quadrant')):
        out.append(([k], ('QuadrantMode', v)))
    for k, v in (('G36', 'on'), ('G37', 'off')):
        out.append(([k], ('RegionMode', v)))
    for k in ('G01', 'G02', 'G03'):
        out.append((['c', k, None, None, None, None, None], ('COORD', k, None, None, None, None, None)))
    for k in ('D02', 'D03', 'D01'):
        out.append((['c', None, None, None, None, None, k], ('COORD', None, None, None, None, None, k)))
    return out


RARE = rare()
KNOWN = {repr(c): s for c, s in RARE}
TRIPLES = [k for k, (c, s) in enumerate(RARE) if c[0] != 'praw' and c[0] != 'G04' and c[0] != 'raw'] + [
    next(k for k, (c, s) in enumerate(RARE) if s[0] == t) for t in ('IN', 'MI', 'SF', 'UNKNOWN', 'DEPRECATED', 'EOF', 'COMMENT')]
ZEROS = {'L': 'leading', 'T': 'trailing', 'D': 'none', '': 'none'}
EXTRA = ('', 'N2G2', 'N5')


def hists(n):
    for k in range(1, n + 1):
        for h in product(OPS, repeat=k):
            yield list(h)


def cases(tier):
    quick = tier == 'quick'
    for c in P04.cases(tier):
        if c[-1] != 'own' and c[0] == 'doc' or c[0] == 'doc' and len(c[3]) > 2:
            continue
        yield ['prog', c, []]
    for c in P04.cases('quick'):
        if c[0] == 'doc' and c[-1] == 'own' and (len(c[3]) < 2 and len(c[2]) < 2 + (c[3] != ['APS']) or not quick):
            for h in hists(2 if quick else 3):
                yield ['prog', c, h]
    for h in sorted(HEADS):
        for st in ('plain', 'short', 'crlf'):
            for n in (0, 1, 2):
                if n == 2 and (st != 'plain' or h != 'in24L') and quick:
                    continue
                for seq in product(range(len(RARE)), repeat=n):
                    yield ['rare', h, st, list(seq), []]
    if not quick:
        for seq in product(TRIPLES, repeat=3):
            yield ['rare', 'mm33T', 'plain', list(seq), []]
    for h in ('in24L', 'mm33T'):
        for k in range(len(RARE)):
            for ops in hists(2 if quick else 4):
                yield ['rare', h, 'plain', [k], ops]
    for prior in ('D01', 'D02', 'D03'):
        for func in (None, 'G01', 'G02', 'G03'):
            for fields in product((0, 1), repeat=4):
                for op in (None, 'D01', 'D02', 'D03'):
                    if not any(fields) and func is None and op is None:
                        continue
                    for h in ('in24L',) if quick else ('in24L', 'mm33T'):
                        for st in ('plain', 'short'):
                            yield ['coord', h, st, prior, func, list(fields), op, []]
                        for ops in [[o] for o in OPS] if quick else hists(2):
                            yield ['coord', h, 'plain', prior, func, list(fields), op, ops]
    for z in sorted(ZEROS):
        for n in 'AI':
            for a in range(1, 7):
                for b in range(1, 7):
                    for e in EXTRA if quick else EXTRA + ('G9',):
                        for ops in [[]] + ([] if quick else [[o] for o in OPS]):
                            yield ['fs', z, n, a, b, e, ops]


STYLES = {'plain': None, 'short': G.Style(short=True), 'crlf': G.Style(eol='\r\n')}


def num(n):
    return None if n is None else float(Fraction(n) * G.Q)


def short(code):
    """G1 for G01"""
    return None if code is None else code[0] + '%02d' % int(code[1:])


def expected(cmds):
    """statements of a program: tuples of kind and parameters; ('len', value, axis) is a length"""
    op = 'D02'
    out = []
    for c in cmds:
        k = c[0]
        if repr(c) in KNOWN and k != 'c' and k != 'units':
            out.append(KNOWN[repr(c)])
        elif k == 'FS':
            out.append(('FS', ZEROS[c[1]], 'absolute', tuple(c[2])))
        elif k == 'MO':
            out.append(('MO', {'IN': 'inch', 'MM': 'metric'}[c[1]]))
        elif k == 'raw' and c[1] in ('G70*', 'G71*'):
            out.append(('MO', 'inch' if c[1] == 'G70*' else 'metric'))
        elif k in ('AD', 'ADx'):
            scaled = {'C': lambda n: True, 'R': lambda n: True, 'O': lambda n: True, 'P': lambda n: n not in (1, 2)}.get(c[2], lambda n: False)
            mods = [v if k == 'AD' else float(Fraction(G.num(v))) for v in c[3]]
            out.append(('AD', c[1], c[2], tuple(('len' if scaled(n) else 'num', float(v), None) for n, v in enumerate(mods))))
        elif k == 'AM':
            out.append(('AM', c[1], ''.join(c[2].split()).rstrip('*')))
        elif k == 'c':
            func, x, y, i, j, o = c[1:]
            op = o or op
            alone = func and (x, y, i, j, o) == (None,) * 5
            out.append(('COORD', func) + tuple(None if v is None else ('len', num(v), a)
                                               for v, a in ((x, 'x'), (y, 'y'), (i, None), (j, None))) + (None if alone else op,))
        elif k in ('D', 'G54'):
            out.append(('APERTURE', c[1]))
        elif k == 'G04':
            out.append(('COMMENT', c[1]))
        elif k == 'praw' and c[1][:2] in P04.FIELDS:
            out.append(next(P04.META[n] for n, e in D.NON_DRAWING.items() if e == c))
            if out[-1][0] == 'OF':
                out[-1] = ('OF',) + tuple(('len', v, None) for v in out[-1][1:])
        elif k == 'praw':
            out.append(('UNKNOWN', '%' + c[1] + '%'))
        elif k == 'raw' and c[1][:3] == 'G54':
            out.append(('APERTURE', int(c[1][4:-1])))
        elif k == 'raw':
            out.append(('UNKNOWN', c[1]))
        elif k in ('G36', 'G37'):
            out.append(('RegionMode', 'on' if k == 'G36' else 'off'))
        elif k in ('G74', 'G75'):
            out.append(('QuadrantMode', 'single-quadrant' if k == 'G74' else 'multi-quadrant'))
        elif k in ('G90', 'G91'):
            out.append(('DEPRECATED', k + '*'))
        elif k in ('G01', 'G02', 'G03'):
            out.append(('COORD', k, None, None, None, None, None))
        elif k in ('M00', 'M01', 'M02'):
            out.append(('EOF',))
        else:
            raise KeyError(c)
    return out


def after(s, k, dx, dy, units):
    if s[0] == 'MO':
        return ('MO', units)

    def f(v):
        if isinstance(v, tuple) and v and v[0] in ('len', 'num'):
            return v[1] if v[0] == 'num' else v[1] * k + {'x': dx, 'y': dy, None: 0.0}[v[2]]
        if isinstance(v, tuple):
            return tuple(f(w) for w in v)
        return v
    return tuple(f(v) for v in s)


FIELDS = dict(P04.FIELDS, FS=('zero_suppression', 'notation', 'format'), AD=('d', 'shape', 'modifiers'), AM=('name', 'macro'))
OTHER = {'COORD': ('function', 'x', 'y', 'i', 'j', 'op'), 'COMMENT': ('comment',), 'APERTURE': ('d',), 'QuadrantMode': ('mode',),
         'RegionMode': ('mode',), 'UNKNOWN': ('line',), 'DEPRECATED': ('line',), 'EOF': ()}


ATTRS = sorted(set(a for names in list(FIELDS.values()) + list(OTHER.values()) for a in names) | {'type', 'param'})


def observed(s):
    """s: a statement, or the dump of one"""
    if not isinstance(s, dict):
        s = dict((a, getattr(s, a)) for a in ATTRS if hasattr(s, a))
    t = s.get('type')
    # a unit command of the older form is reported without a parameter code by some tools
    if t == 'PARAM':
        p = s.get('param')
        v = [s.get(a) for a in FIELDS.get(p, ())]
        if p == 'AD':
            v[2] = tuple(x for m in v[2] for x in m)
        elif p == 'AM':
            v[1] = ''.join(v[1].split()).rstrip('*')
        return (p,) + tuple(tuple(x) if isinstance(x, list) else x for x in v)
    v = [s.get(a) for a in OTHER.get(t, ())]
    if t == 'COORD':
        v[0], v[5] = short(v[0]), short(v[5])
    return (t,) + tuple(v)


def program(case):
    """(text, expected statements, units, style)"""
    if case[0] == 'prog':
        c = case[1]
        if c[0] == 'step':
            cmds = P04.program(c)[0]
        else:
            cmds = P04.program(c)
        cmds = list(cmds) + [['M02']]
        return D.text_of(cmds[:-1]), expected(cmds), cmds
    if case[0] == 'fs':
        _, z, n, a, b, e, _ = case
        text = '%%FS%s%s%sX%d%dY%d%d*%%\n%%MOIN*%%\n%%ADD10C,0.5*%%\nD10*\nX%sY0D03*\nM02*\n' % (
            z, n, e, a, b, a, b, '0' * (a - 1) + '1' + '0' * b if z != 'L' else '1' + '0' * b)
        return text, [('FS', ZEROS[z], 'absolute' if n == 'A' else 'incremental', (a, b)), ('MO', 'inch'),
                      ('AD', 10, 'C', (('len', 0.5, None),)), ('APERTURE', 10),
                      ('COORD', None, ('len', 1.0, 'x'), ('len', 0.0, 'y'), None, None, 'D03'), ('EOF',)], None
    h, st = case[1:3]
    units, fmt, zero = HEADS[h]
    cmds = D.head(units, fmt, zero, ['c', 'r']) + [['D', 10]]
    if case[0] == 'rare':
        for k in case[3]:
            c = RARE[k][0]
            cmds.append(['raw', 'G70*' if units == 'IN' else 'G71*'] if c[0] == 'units' else c)
        cmds += [['c', None, 4, 8, None, None, 'D02'], ['c', 'G01', 8, None, None, None, 'D01'], ['c', None, None, -4, None, None, 'D03']]
    else:
        prior, func, fields, op = case[3:7]
        cmds += [['G75'], ['c', 'G01', 4, 8, None, None, prior],
                 ['c', func] + [v if on else None for v, on in zip((8, -4, 4, -8), fields)] + [op],
                 ['c', 'G01', 0, 0, None, None, None]]
    cmds.append(['M02'])
    return D.text_of(cmds[:-1], STYLES[st]), expected(cmds), cmds


def differ(what, exp, got, text):
    if not G.same(exp, got):
        raise Violation('%s: %s\nprogram:\n%s' % (what, G.first_difference(exp, got), text), G.show(exp), G.show(got))


def run(case, ctx):
    import gerber
    from gerber.rs274x import GerberParser
    text, want, cmds = program(case)
    ops = case[-1]
    f = gerber.loads(text)
    ctx.trace()
    if cmds:
        g = G.Gerber()
        g.op = 'D02'
        for c in cmds:
            src = (g.op, g.interp, g.region, g.quad, g.pol)
            if c[0] == 'c':
                g.op, g.interp = c[6] or g.op, c[1] or g.interp
            elif c[0] in ('G36', 'G37', 'G74', 'G75', 'LP'):
                g.apply(c)
            ctx.transition(src, c[0], (g.op, g.interp, g.region, g.quad, g.pol))
    units = [s[1] for s in want if s[0] == 'MO'][-1]
    differ('statements', [after(s, 1.0, 0.0, 0.0, units) for s in want], [observed(s) for s in f.statements], text)
    if not ops:
        p = GerberParser()
        p.parse_raw(text)
        dumped = json.loads(p.dump_json())
        differ('statements of the JSON dump', [after(s, 1.0, 0.0, 0.0, units) for s in want],
               [observed(s) for s in dumped['statements']], text)
        lines = p.dump_str()
        if lines != ''.join(str(s) + '\n' for s in p.statements):
            raise Violation('text dump\nprogram:\n%s' % text, [str(s) for s in p.statements], lines)
        out = D.write_text(f, D.scratch_file(ctx))
        g = gerber.loads(out)
        wr = [after(s, 1.0, 0.0, 0.0, units) for s in want]
        got = [observed(s) for s in g.statements]
        # numbers with all zeros may be declared either way; an evaluated macro has other text
        full = any(s[:2] == ('FS', 'none') for s in want)
        differ('statements written and read again\n%s' % out, [relaxed(s, full) for s in wr], [relaxed(s, full) for s in got], text)
    k, dx, dy = 1.0, 0.0, 0.0
    for op in ops:
        m = {('inch', 'metric'): 1 / 25.4, ('metric', 'inch'): 25.4}.get((op, units), 1.0)
        if op == 'offset':
            f.offset(0.5, -0.25)
            dx, dy = dx + 0.5, dy - 0.25
        else:
            getattr(f, 'to_' + op)()
            k, dx, dy, units = k * m, dx * m, dy * m, op
        differ('statements after %s' % ops, [after(s, k, dx, dy, units) for s in want], [observed(s) for s in f.statements], text)
        for s in f.statements:
            str(s)
    return repr(want)


def relaxed(s, full):
    if s[0] == 'FS' and full:
        return ('FS', 'any') + s[2:]
    if s[0] == 'AM':
        return s[:2]
    return s
