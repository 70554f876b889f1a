"""P27: the layout and the spelling of a Gerber program mean nothing."""
from itertools import product

from mc import gdocs as D
from mc import gmodel as G
from mc import gspace as S
from mc.core import Violation

PID = 'P27'
LEVEL = 'model_checking'
RULE = ('(a) every combination of layout options (line ends, several commands per line, several parameters per block, '
        'blocks over several lines, blanks, empty commands, comments and unknown commands in between, number of digits '
        'of codes, function codes on their own, explicit or omitted modal words, missing end) for each document; (b) '
        'every transition of the closed graphics-state machine in each of the spellings of the modal words; all must '
        'draw the objects the model gives for the program; outcome = text of the program')
BOUNDS = {'quick': '(a) 4104 layouts x 6 documents; (b) closure of the 2x2 grid x 5 spellings',
          'thorough': '(a) x 16 documents; (b) closure of the 3x3 grid x 6 spellings'}
ASSUMPTIONS = ('as P02',)
EOLS = {'lf': '\n', 'crlf': '\r\n', 'cr': '\r', 'none': ''}
BLOCKS = ('each', 'joined', 'lines', 'alone')
BODIES = ('each', 'joined', 'all')
FILLS = ('none', 'blank', 'star', 'comment', 'g4', 'unknown')
SPELL = ('plain', 'short', 'explicit', 'terse', 'split', 'zeros', 'g70', 'plus')
ENDS = ('M02', 'M00', 'nothing')
DOCS = [[['r', 'DONUT', 'c'], ['line', 'flash', 'arcm']], [['c'], ['region', 'regarc']],
        [['o', 'BOX', 'BOX2'], ['APS']], [['ch', 'TARGET'], ['clear', 'flash']], [['c'], ['arcs', 'circ', 'clearline']],
        [['c', 'THERM', 'pr', 'c0'], ['flash', 'APS', 'line']]]
MORE = [[['c', a], ['APS', p]] for a, p in zip(('CROSS', 'VEC', 'TRI', 'POLY', 'PLAIN', 'rhh', 'ohh', 'phh', 'chh', 'fine'),
                                         ('flash', 'clear', 'flash', 'flash', 'clear', 'line', 'arcm', 'flash', 'arcs',
                                          'region'))]
MIX = [(['ADx', 11, 'C', [0.25]], 'ADD11C,0.25'), (['ADx', 12, 'R', [0.5, 0.25]], 'ADD12R,0.5X0.25'),
       (['ADx', 13, 'PLAIN', []], 'ADD13PLAIN'), (['ADx', 14, 'BOX', [1, 0.5]], 'ADD14BOX,1X0.5'),
       (['ADx', 15, 'O', [1, 0.5]], 'ADD15O,1X0.5'), (['ADx', 16, 'P', [1, 6]], 'ADD16P,1X6'),
       (['LP', 'C'], 'LPC'), (['LP', 'D'], 'LPD'), (None, 'INa name'), (None, 'LNlayer_1'), (None, 'OFA0B0'),
       (None, 'IPPOS'), (None, 'MIA0B0'), (None, 'SFA1B1'), (None, 'ASAXBY'), (None, 'TF.Part,Single'), (None, 'IR0')]
SEPS = ['', '\n', '\n\n', '\r\n']
HEADS = [('IN', (2, 4), 'L'), ('MM', (3, 3), 'T'), ('IN', (2, 5), 'L')]


def cases(tier):
    quick = tier == 'quick'
    for n in range(len(DOCS)) if quick else range(len(DOCS) + len(MORE)):
        for eol, block, body, fill, spell, end in product(sorted(EOLS), BLOCKS, BODIES, FILLS, SPELL, ENDS):
            if spell in ('short', 'split', 'zeros', 'g70', 'plus') and end != 'M02':
                continue
            yield ['doc', n, eol, block, body, fill, spell, end]
    for n in range(1, 4 if quick else 5):
        for seq in product(range(len(MIX)), repeat=n):
            if len(set(seq)) == n:
                for sep in SEPS if n < 4 else SEPS[:2]:
                    yield ['block', list(seq), sep]
    menu = S.Menu(1) if quick else S.Menu(2)
    head = S.header(*HEADS[0])
    for idx, (canon, trace, g) in enumerate(S.closure(menu, head)):
        for n in range(len(menu.events(g))):
            for spell in ('explicit', 'terse', 'short', 'split', 'plus') if quick else SPELL:
                yield ['step', menu.box, idx, n, spell]


def respell(cmds, spell):
    """the same program with other modal words"""
    if spell not in ('explicit', 'terse'):
        return cmds
    g = G.Gerber()
    out = []
    for c in cmds:
        if c[0] == 'c':
            func, x, y, i, j, op = c[1:]
            nothing = x is None and y is None and i is None and j is None and op is None
            end = [int(g.pos[k] / G.Q) if v is None else v for k, v in ((0, x), (1, y))]
            now = [int(v / G.Q) for v in g.pos]
            arc = (func or g.interp) != 'G01'
            o = op or g.op
            if spell == 'explicit' and not nothing:
                c = ['c', func or g.interp] + end + ([i or 0, j or 0] if arc and o == 'D01' else [i, j]) + [o]
            elif spell == 'terse' and not nothing:
                c = ['c', None if func == g.interp else func] + [None if e == p else e for e, p in zip(end, now)] + \
                    [i or None, j or None, None if op == g.op else op]
                if c[1:] == [None] * 6 or c[2:] == [None] * 5:
                    c[6] = o
        if c[0] == 'ADx':
            g.aps[c[1]] = ('C', 0, (0, 0, 0))
        else:
            g.apply(c)
        out.append(c)
    return out


def pieces(cmds, spell):
    """(is parameter, text) of every command"""
    style = G.Style(plus=spell == 'plus', short=spell == 'short', split_func=spell == 'split', eol='\n')
    out = []
    fs = []
    for c in cmds:
        c = ['AD'] + c[1:] if c[0] == 'ADx' else c
        if c[0] == 'FS':
            fs = [c]
        param = c[0] in ('FS', 'MO', 'LP', 'AD', 'AM', 'praw')
        text = G.render((fs if c[0] != 'FS' else []) + [c], style).split('\n')
        if fs and c[0] != 'FS':
            text = text[1:]
        if spell == 'g70' and c[0] == 'MO':
            # the old way to state the units
            param, text = False, ['G90*', 'G70*' if c[1] == 'IN' else 'G71*']
        for t in text:
            if t:
                t = t.strip('%')
                if spell == 'zeros' and not param and t[0] in 'GD' and t[1:-1].isdigit() and c[0] == 'D':
                    t = t[0] + '0' + t[1:] if len(t) < 4 else t
                out.append((param, t))
    return out


def layout(ps, eol, block, body, fill):
    filler = {'none': '', 'blank': ' ' + eol + eol if eol else '', 'star': '*' + eol, 'comment': 'G04 between, X1D03*' + eol,
              'g4': 'G4 D11*G4*' + eol + 'G4 X5Y5D01*',
              'unknown': 'G99*' + eol}[fill]
    res = filler if fill in ('blank', 'comment', 'g4') else ''
    i = 0
    while i < len(ps):
        run = [ps[i]]
        # a macro stays alone in its block
        while i + 1 < len(ps) and ps[i + 1][0] == ps[i][0] and not (
                ps[i][0] and (ps[i][1].startswith('AM') or ps[i + 1][1].startswith('AM'))):
            i += 1
            run.append(ps[i])
        i += 1
        texts = [t for _, t in run]
        if run[0][0]:
            if fill == 'unknown' and len(texts) > 1:
                texts.insert(1, 'TFUnknown,1*')
            if block == 'each':
                res += ''.join('%' + (t.replace('*', '*' + eol) if t.startswith('AM') and eol and fill == 'blank' else t)
                               + '%' + eol for t in texts)
            elif block == 'joined':
                res += '%' + ''.join(texts) + '%' + eol
            elif block == 'lines':
                res += '%' + eol.join(texts) + '%' + eol
            else:
                res += '%' + eol + eol.join(texts) + eol + '%' + eol
            res += filler
        else:
            per = {'each': 1, 'joined': 3, 'all': len(texts)}[body]
            for k in range(0, len(texts), per):
                res += ''.join(texts[k:k + per]) + eol
                res += filler
    return res


def block_case(case, ctx):
    import gerber
    _, seq, sep = case
    cmds = [['FS', 'L', [2, 4]], ['MO', 'IN'], ['AM', 'PLAIN', D.MACROS['PLAIN']], ['AM', 'BOX', D.MACROS['BOX']],
            ['ADx', 10, 'C', [0.5]]]
    top = ['%FSLAX24Y24*%', '%MOIN*%', '%AMPLAIN*' + D.MACROS['PLAIN'] + '%', '%AMBOX*' + D.MACROS['BOX'] + '%',
           '%ADD10C,0.5*%']
    tail = []
    for k in [10] + [MIX[i][0][1] for i in seq if MIX[i][0] and MIX[i][0][0] == 'ADx']:
        tail += [['D', k], ['c', 'G01', k, 4, None, None, 'D03']]
    cmds = cmds + [MIX[i][0] for i in seq if MIX[i][0]] + tail
    end = [t for p, t in pieces(tail, 'plain')] + ['M02*']
    one = '\n'.join(top + ['%' + sep.join(MIX[i][1] + '*' for i in seq) + '%'] + end) + '\n'
    many = '\n'.join(top + ['%' + MIX[i][1] + '*%' for i in seq] + end) + '\n'
    exp = D.transform(D.build(cmds).out, 1.0, 0.0, 0.0)
    texts = []
    for text in (one, many):
        f = gerber.rs274x.loads(text)
        ctx.trace()
        bad = D.compare(exp, f)
        if bad:
            raise Violation('%s\nprogram:\n%r' % (bad, text))
        texts.append([(type(s).__name__, s.to_gerber(f.settings)) for s in f.statements])
    if texts[0] != texts[1]:
        raise Violation('statements of %r' % one, texts[1], texts[0])
    return one


def run(case, ctx):
    import gerber
    from mc.props import p04_roundtrip as P04
    if case[0] == 'block':
        return block_case(case, ctx)
    if case[0] == 'doc':
        _, n, eol, block, body, fill, spell, end = case
        aps, names = (DOCS + MORE)[n]
        cmds = D.head(*(HEADS[n % 3] + (aps,)))
        cmds = cmds + [['D', 10]]
        for name in names:
            if name == 'APS':
                for k in range(len(aps)):
                    cmds += [['D', 10 + k], ['c', 'G01', 4 * k, 4, None, None, 'D03']]
            else:
                cmds += D.PIECES[name]
                if name in ('line', 'arcm', 'arcs', 'circ', 'clearline') and not D.stroke_ok(aps[0]):
                    raise AssertionError(case)
        eol = EOLS[eol]
    else:
        _, box, idx, n, spell = case
        menu = S.Menu(box)
        head = S.header(*HEADS[0])
        canon, trace, g = S.closure(menu, head)[idx]
        ev = menu.events(g)[n]
        h = g.clone()
        h.apply(ev)
        ctx.transition(canon, ev, h.canon())
        cmds = head + trace + [ev] + menu.probe(h)
        eol, block, body, fill, end = '\n', 'each', 'each', 'none', 'M02'
    exp = D.transform(D.build(cmds).out, 1.0, 0.0, 0.0)
    spelt = respell(cmds, spell)
    if D.transform(D.build(spelt).out, 1.0, 0.0, 0.0) != exp:
        raise AssertionError('respelling changed the program %r' % (case,))
    ps = pieces(spelt, spell)
    if end != 'nothing':
        ps.append((False, end + '*'))
    text = layout(ps, eol, block, body, fill)
    f = gerber.rs274x.loads(text)
    ctx.trace()
    bad = D.compare(exp, f)
    if bad:
        raise Violation('%s\nprogram:\n%r' % (bad, text))
    want = {'IN': 'inch', 'MM': 'metric'}[cmds[1][1]]
    if f.units != want or D.units_of(f) - {want}:
        raise Violation('units of\n%r' % text, want, (f.units, D.units_of(f)))
    said = [c.strip()[2 if c.strip().startswith('G4') else 3:].strip() for c in text.replace('%', '*').split('*')
            if c.strip().startswith(('G04', 'G4'))]
    if [c.strip() for c in f.comments] != said:
        raise Violation('comments of\n%r' % text, said, f.comments)
    f2 = gerber.loads(text)
    bad = D.compare(exp, f2)
    if bad:
        raise Violation('through the common entry point: %s\nprogram:\n%r' % (bad, text))
    return text
