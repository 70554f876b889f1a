"""P04: writing a Gerber file and reading it back draws the same image and keeps every command."""
from itertools import product

from mc import gdocs as D
from mc import gmodel as G
from mc import gspace as S
from mc.core import Violation

PID = 'P04'
LEVEL = 'model_checking'
RULE = ('(a) every transition of the closed graphics-state machine (as in P02), the program then written and read '
        'back; (b) every sequence of drawing and non-drawing commands from a catalogue, for every output format; '
        '(c) every aperture template and macro; (d) programs of n apertures of five kinds; outcome = the rewritten text')
BOUNDS = {
    'quick': '(a) closure of the 2x2 grid; (b) all ordered pairs of 33 catalogue entries x 4 output formats; '
             '(d) 26 numbers up to 200',
    'thorough': '(a) closure of the 3x3 grid; (b) all ordered triples of 33 catalogue entries x 6 output formats; '
                '(d) 26 numbers up to 200',
}
ASSUMPTIONS = (
    'coordinates are representable in the output format; the output settings name the units of the file',
    'extended commands the library does not know stand in a block of their own',
    'OF/SF values with at most 5 decimals (the writer truncates there; pinned by the existing tests)',
)
FORMATS = {'own': None, '36L': ((3, 6), 'leading'), '36T': ((3, 6), 'trailing'), '23L': ((2, 3), 'leading'),
           '45T': ((4, 5), 'trailing'), '66L': ((6, 6), 'leading')}
QUICK_FORMATS = ['own', '36L', '36T', '23L']
HEADS = {'in24L': ('IN', (2, 4), 'L'), 'mm33T': ('MM', (3, 3), 'T'), 'in25D': ('IN', (2, 5), 'D')}
ENTRIES = sorted(D.PIECES) + sorted(D.NON_DRAWING)


def cases(tier):
    quick = tier == 'quick'
    fmts = QUICK_FORMATS if quick else sorted(FORMATS)
    for n in range(3) if quick else range(4):
        for combo in product(ENTRIES, repeat=n):
            for fn in fmts if n < 3 else ['own', '36T']:
                for h in sorted(HEADS) if n < 2 else ['in24L']:
                    if n == 2 and fn not in ('own', '36T'):
                        continue
                    yield ['doc', h, ['r', 'c'], list(combo), fn]
    for a in sorted(D.APERTURES):
        for h in ('in24L', 'mm33T'):
            for fn in fmts:
                yield ['doc', h, ['c', a], ['APS'], fn]
    for a, b in product(sorted(D.APERTURES), repeat=2):
        yield ['doc', 'in24L', [a, b], ['APS'], 'own']
    for kind in D.MANY:
        for n in D.COUNTS:
            for h in ('in24L', 'mm33T'):
                yield ['many', h, [kind], [n], 'own']
    menu = S.Menu(1) if quick else S.Menu(2)
    for h in ['in24L'] if quick else ['in24L', 'mm33T']:
        head = S.header(*HEADS[h])
        for idx, (canon, trace, g) in enumerate(S.closure(menu, head)):
            for n in range(len(menu.events(g))):
                yield ['step', h, menu.box, idx, n]


def aps_piece(aps):
    cmds = []
    for n, a in enumerate(aps):
        cmds += [['D', 10 + n], ['c', None, 4 * n, 8, None, None, 'D03'], ['c', None, None, -8, None, None, 'D03']]
        if D.stroke_ok(a):
            cmds += [['c', None, 12, 16, None, None, 'D01']]
        cmds += [['LP', 'C'], ['c', None, 2, 2, None, None, 'D03'], ['LP', 'D']]
    return cmds


def program(case):
    if case[0] == 'many':
        return D.many(case[2][0], case[3][0], HEADS[case[1]][0])
    if case[0] == 'doc':
        _, h, aps, combo, fn = case
        cmds = D.head(HEADS[h][0], HEADS[h][1], HEADS[h][2], aps) + [['D', 10]]
        for e in combo:
            cmds += aps_piece(aps) if e == 'APS' else D.PIECES[e] if e in D.PIECES else [D.NON_DRAWING[e]]
        return cmds
    _, h, box, idx, n = case
    menu = S.Menu(box)
    head = S.header(*HEADS[h])
    canon, trace, g = S.closure(menu, head)[idx]
    ev = menu.events(g)[n]
    k = g.clone()
    k.apply(ev)
    return head + trace + [ev] + menu.probe(k), canon, ev, k.canon()


FIELDS = {'IN': ('name',), 'LN': ('name',), 'IP': ('ip',), 'AS': ('mode',), 'IR': ('angle',), 'MI': ('a', 'b'),
          'OF': ('a', 'b'), 'SF': ('a', 'b'), 'LP': ('lp',), 'MO': ('mode',), 'AD': ('d', 'shape'), 'AM': ('name',)}


def describe(f):
    """commands of a parsed file, as data"""
    out = []
    for s in f.statements:
        t = s.type
        if t == 'PARAM':
            out.append((s.param,) + tuple(getattr(s, a) for a in FIELDS.get(s.param, ())))
        elif t == 'COORD':
            out.append((t, s.function, s.x, s.y, s.i, s.j, s.op))
        elif t == 'COMMENT':
            out.append((t, s.comment))
        elif t == 'APERTURE':
            out.append((t, s.d))
        elif t in ('QuadrantMode', 'RegionMode'):
            out.append((t, s.mode))
        elif t in ('UNKNOWN', 'DEPRECATED'):
            out.append((t, s.line))
        else:
            out.append((t,))
    return out


META = {'in': ('IN', 'my image'), 'ln': ('LN', 'Layer_1'), 'ippos': ('IP', 'positive'), 'ipneg': ('IP', 'negative'),
        'as': ('AS', 'AXBY'), 'as2': ('AS', 'AYBX'), 'ir': ('IR', 90), 'mi': ('MI', 1, 0), 'mia': ('MI', 1, 0),
        'mib': ('MI', 0, 1), 'of': ('OF', 1.5, -0.25), 'ofa': ('OF', 2.0, 0.0), 'ofb': ('OF', 0.0, 0.5),
        'sf': ('SF', 1.5, 2.25), 'sfa': ('SF', 0.5, 1.0), 'sfb': ('SF', 1.0, 3.0),
        'comment': ('COMMENT', ' some text, X1Y2D01 x=1'), 'nocomment': ('COMMENT', ''),
        'quad': ('QuadrantMode', 'single-quadrant')}


def run(case, ctx):
    import gerber
    from gerber.cam import FileSettings
    fn = 'own'
    if case[0] == 'step':
        prog, canon, ev, k = program(case)
        ctx.transition((case[1], canon), ev, (case[1], k))
        exp = G.interpret(prog).out
    else:
        prog, fn = program(case), case[4]
        exp = D.transform(D.build(prog).out, 1.0, 0.0, 0.0)
    text = D.text_of(prog)
    f = gerber.loads(text)
    ctx.trace()
    bad = D.compare(D.transform(exp, 1.0, 0.0, 0.0) if case[0] == 'step' else exp, f)
    if bad:
        raise Violation('first reading: %s\nprogram:\n%s' % (bad, text))
    if case[0] == 'doc':
        seen = describe(f)
        for e in case[3]:
            if e in META and META[e] not in seen:
                raise Violation('command %s not read as %r\nprogram:\n%s' % (D.NON_DRAWING[e], META[e], text),
                                META[e], seen)
        settings = None
        if FORMATS[fn]:
            settings = FileSettings(units=f.units, format=FORMATS[fn][0], zero_suppression=FORMATS[fn][1])
    else:
        settings = None
    path = D.scratch_file(ctx)
    out = D.write_text(f, path, settings)
    bad = D.macros_differ(out, case[2], 1.0) if case[0] == 'doc' else None
    if bad:
        raise Violation('written file: %s\nprogram:\n%s' % (bad, text), None, out)
    f2 = gerber.read(path)
    if not isinstance(f2, type(f)):
        raise Violation('rewritten file is read as %s' % type(f2).__name__, None, out)
    bad = D.compare(D.transform(exp, 1.0, 0.0, 0.0) if case[0] == 'step' else exp, f2)
    if bad:
        raise Violation('after rewriting: %s\nprogram:\n%s\nrewritten as:\n%s' % (bad, text, out))
    if f2.units != f.units:
        raise Violation('units after rewriting', f.units, f2.units)
    a, b = describe(f), describe(f2)
    if not G.same(a, b):
        raise Violation('commands after rewriting: %s\nprogram:\n%s\nrewritten as:\n%s'
                        % (G.first_difference(a, b), text, out), a, b)
    if f2.comments != f.comments:
        raise Violation('comments', f.comments, f2.comments)
    out2 = D.write_text(f2, path, settings)
    if out2 != out:
        raise Violation('writing is not stable after one round trip', out, out2)
    return out
