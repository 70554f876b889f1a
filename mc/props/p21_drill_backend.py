"""P21: rendering a drill file to a drill file yields a program that drills the same holes, in the same order."""
from itertools import product

from mc import emodel as E
from mc import espace as S
from mc import gmodel as G
from mc.core import Violation
from mc.props import p11_drill_machine as P11

PID = 'P21'
LEVEL = 'model_checking'
RULE = ('(a) every sequence of holes and slots (of both kinds, on a small grid, with two tools) up to a fixed length; '
        '(b) every combination of pieces, x output format, x units; (c) the long documents of P11; the rendered program is interpreted by the '
        'reference machine and by the real parser; outcome = the rendered text')
BOUNDS = {'quick': '(a) 14 objects, sequences <= 3; (b) ordered pairs of 11 pieces x 4 output formats',
          'thorough': '(a) 14 objects, sequences <= 4; (b) ordered triples of 11 pieces x 2 output formats'}
ASSUMPTIONS = ('the output settings use the units of the file and can represent its coordinates', 'absolute notation')
OBJ = [('hole', 1, (0, 0)), ('hole', 1, (4, 0)), ('hole', 2, (4, 0)), ('hole', 2, (4, 4)),
       ('slot', 1, (0, 0), (4, 0), 'G85'), ('slot', 2, (4, 0), (4, 4), 'G85'), ('slot', 1, (4, 4), (4, 4), 'G85'),
       ('slot', 1, (0, 0), (4, 0), 'rout'), ('slot', 1, (4, 0), (4, 4), 'rout'), ('slot', 2, (4, 4), (0, 4), 'rout'),
       ('slot', 2, (4, 0), (0, 0), 'rout'), ('slot', 1, (4, 4), (4, 4), 'rout'), ('slot', 1, (0, 4), (8, -4), 'rout'),
       ('slot', 2, (0, 0), (4, 0), 'rout')]
FORMATS = {'24T': ((2, 4), 'trailing'), '33L': ((3, 3), 'leading'), '25L': ((2, 5), 'leading'),
           '33T': ((3, 3), 'trailing')}


def cases(tier):
    quick = tier == 'quick'
    for n in range(0, 4 if quick else 5):
        for seq in product(range(len(OBJ)), repeat=n):
            for i, fmt in enumerate(sorted(FORMATS)):
                if n >= 3 and i != sum(seq) % 4:
                    continue
                yield ['objs', list(seq), 'IN' if sum(seq) % 2 else 'MM', fmt]
    names = sorted(S.PIECES)
    for n in (1, 2) if quick else (1, 2, 3):
        for combo in product(names, repeat=n):
            for fmt in sorted(FORMATS) if n < 3 else ('24T', '33L'):
                for h in ('inTZ24', 'mmLZ33'):
                    yield ['doc', list(combo), h, fmt]
    for kind, h, n in S.longs(quick):
        own = E.interpret(S.HEADS[h]).fmt
        for fmt in sorted(FORMATS):
            if 'far' not in kind and kind != 'repeat2' or all(x <= y for x, y in zip(own, FORMATS[fmt][0])):
                yield ['long', [kind, n], h, fmt]




def run(case, ctx):
    from gerber import excellon
    from gerber.cam import FileSettings
    from gerber.excellon_statements import ExcellonTool
    from gerber.render.excellon_backend import ExcellonContext
    fmt, zs = FORMATS[case[3]]
    if case[0] == 'objs':
        units = 'inch' if case[2] == 'IN' else 'metric'
        tools = dict((n, ExcellonTool(FileSettings(units=units), number=n, diameter=float(E.TQ * S.TOOLS[n])))
                     for n in (1, 2))
        hits, model = [], E.Drill()
        model.tools, model.order, model.units = dict((n, S.TOOLS[n]) for n in (1, 2)), [1, 2], units

        def pt(p):
            return (p[0] / 4.0, p[1] / 4.0)
        for i in case[1]:
            o = OBJ[i]
            model.hits.append(o)
            if o[0] == 'hole':
                hits.append(excellon.DrillHit(tools[o[1]], pt(o[2])))
            else:
                hits.append(excellon.DrillSlot(tools[o[1]], pt(o[2]), pt(o[3]), excellon.DrillSlot.TYPE_ROUT
                                               if o[4] == 'rout' else excellon.DrillSlot.TYPE_G85))
        f = excellon.ExcellonFile([], tools, hits, FileSettings(units=units))
    else:
        cmds = S.document(case[2], case[1]) if case[0] == 'doc' else S.long_document(case[1][0], case[2], case[1][1])
        model = E.interpret(cmds)
        f = P11.load(cmds, E.render(cmds))
    settings = FileSettings(units=f.units, format=fmt, zero_suppression=zs)
    before = E.file_hits(f)
    c = ExcellonContext(settings)
    for p in f.primitives:
        c.render(p)
    stmts = c.statements
    text = '\n'.join(s.to_excellon(settings) for s in stmts) + '\n'
    if '\n'.join(s.to_excellon(settings) for s in c.statements) + '\n' != text:
        raise Violation('asking for the statements twice gives different programs', text)
    if E.file_hits(f) != before:
        raise Violation('rendering changed the file')
    exp = E.model_hits(model)
    g = excellon.loads(text)
    ctx.trace()
    got = E.file_hits(g)
    if not G.same(exp, got):
        raise Violation('rendered program drills %s\nprogram:\n%s' % (G.first_difference(exp, got), text),
                        G.show(exp), G.show(got))
    if g.units != f.units or tuple(g.settings.format) != fmt or g.settings.zero_suppression != zs or \
            g.settings.notation != 'absolute':
        raise Violation('settings of the rendered program\n%s' % text, str(settings), str(g.settings))
    # well-formedness: complete header, one definition per used tool, nothing but routing while the tool is down
    lines = text.split()
    if lines[0] != 'M48' or lines.count('%') != 1 or lines[-1] != 'M30':
        raise Violation('frame of the rendered program', None, text)
    head, body = lines[:lines.index('%')], lines[lines.index('%') + 1:-1]
    used = sorted(set(h[1] for h in model.hits))
    defs = sorted(int(l[1:].split('C')[0]) for l in head if l.startswith('T'))
    if defs != used:
        raise Violation('tool definitions\n%s' % text, used, defs)
    down, mode, tool = False, 'drill', None
    for l in body:
        src = (down, mode, tool)
        if l.startswith('T'):
            if down:
                raise Violation('tool change with the tool down\n%s' % text)
            tool = l
        elif l == 'M15':
            if down:
                raise Violation('tool lowered twice\n%s' % text)
            down = True
        elif l in ('M16', 'M17'):
            down = False
        elif l == 'G05':
            if down:
                raise Violation('drill mode with the tool down\n%s' % text)
            mode = 'drill'
        elif l.startswith('G00'):
            if down:
                raise Violation('rapid move with the tool down\n%s' % text)
            mode = 'rout'
        elif l.startswith('G01'):
            if not down:
                raise Violation('cut with the tool up\n%s' % text)
            mode = 'rout'
        elif l[0] in 'XY' and (down or mode != 'drill'):
            raise Violation('hole drilled outside drill mode\n%s' % text)
        ctx.transition(src, l[:3] if l[0] != 'T' else l, (down, mode, tool))
    if down:
        raise Violation('the program ends with the tool down\n%s' % text)
    return text
