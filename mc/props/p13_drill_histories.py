"""P13: unit conversion and translation never move or resize a hole, whatever the history."""
from itertools import product

from mc import emodel as E
from mc import espace as S
from mc import gmodel as G
from mc.core import Violation
from mc.props import p11_drill_machine as P11

PID = 'P13'
LEVEL = 'model_checking'
RULE = ('every history (sequence of conversions, translations, copying operations, rewrites, conversions of single '
        'holes and tools) up to a fixed length applied to each document; after every step the holes, slots, tools, '
        'drawable objects, extents, units and the left-behind originals are compared with the model; model state = '
        '(units, translation, rewritten?); outcome = the final holes')
BOUNDS = {'quick': '8 operations, histories <= 3, 20 documents in 2 header forms',
          'thorough': '9 operations, histories <= 4, 20 documents in 4 header forms; <= 5 for 2 documents'}
ASSUMPTIONS = ('rewriting rounds to the number format of the file (5 decimals here)',)
OPS = ['inch', 'metric', 'copy-inch', 'copy-metric', 'offset', 'copy-offset', 'rewrite', 'prims', 'offset2']
OFF = {'offset': (0.5, -0.25), 'copy-offset': (-0.25, 1.0), 'offset2': (0.0, 2.0)}
# translations that carry starts of holes and slots onto their ends and onto each other
COINCIDE = [(1.0, 0.0), (-1.0, 0.0), (0.0, 1.0), (1.0, 1.0), (2.0, 0.0), (-1.0, -1.0), (0.0, 0.0), (0.0, -2.0)]
DOCS = [['holes'], ['holes2'], ['repeat'], ['g85'], ['rout'], ['rout2'], ['rout3'], ['inc'], ['g91'], ['next'], ['zero'],
        ['holes', 'g85', 'rout2'], ['rout3', 'holes', 'repeat', 'zero'],
        ['routg85', 'g85rout'], ['neutral', 'comp'], ['undef', 'end'], ['routdot', 'zero'],
        ['holes', 'zerosize'], [], ['end'], ['endonly']]
HEADS = {'in': [['M48'], ['FF', 3, 5], ['u', 'INCH', 'TZ', None]],
         'mm': [['M48'], ['FF', 3, 5], ['u', 'METRIC', 'LZ', None]],
         'inM': [['M48'], ['FF', 3, 5], ['M72']],
         'mmM': [['M48'], ['FF', 3, 5], ['M71']]}


def cases(tier):
    quick = tier == 'quick'
    ops = OPS[:8] if quick else OPS
    for n in range(1, 4 if quick else 5):
        for hist in product(ops, repeat=n):
            for d in range(len(DOCS)):
                for h in ('in', 'mm') if quick or n == 4 else sorted(HEADS):
                    if n == 3 and quick and (d % 2 == 0) != (h == 'mm') and d < 10:
                        continue
                    yield [d, h, list(hist)]
    for d in range(len(DOCS)):
        for h in sorted(HEADS):
            for n in (1, 2):
                for offs in product(range(len(COINCIDE)), repeat=n):
                    for copy in ('at', 'copy-at'):
                        yield [d, h, [copy + str(k) for k in offs] + ([] if n == 1 else ['metric'])]
    if not quick:
        for hist in product(ops, repeat=5):
            yield [10, 'in', list(hist)]


def header(h, tools=(1, 2)):
    return HEADS[h] + [['T', n, S.TOOLS[n]] for n in tools] + [['T', 3, 0], ['%']]


NUMBERS = {'CoordinateStmt': (('x', 'x'), ('y', 'y')), 'EndOfProgramStmt': (('x', 'x'), ('y', 'y')),
           'RepeatHoleStmt': (('', 'xdelta'), ('', 'ydelta')),
           'SlotStmt': (('x', 'x_start'), ('y', 'y_start'), ('x', 'x_end'), ('y', 'y_end'))}


def statements(f):
    """the lengths in the statements of a file: (axis, value) of each"""
    return [(type(s).__name__, [(a, getattr(s, n)) for a, n in NUMBERS[type(s).__name__]])
            for s in f.statements if type(s).__name__ in NUMBERS]


def run(case, ctx):
    from gerber import excellon, operations
    di, h, hist = case
    cmds = header(h)
    for p in DOCS[di]:
        cmds = cmds + (S.PIECES[p] if p != 'endonly' else [['M30', 12, 4]])
    cmds = cmds + [['M30']]
    text = E.render(cmds)
    d = E.interpret(cmds)
    f = P11.load(cmds, text)
    k, dx, dy, units, tol, rewritten = 1.0, 0.0, 0.0, d.units, 1e-9, False
    done = []

    def want(st):
        hits = E.model_hits(d, st[0], st[1], st[2])
        return E.by_tool(hits, d.order) if st[5] else hits

    def check(f, st, when):
        k, dx, dy, units, tol, rewritten = st
        where = '%s after %s\nprogram:\n%s' % (when, done, text)
        exp = want(st)
        got = E.file_hits(f)
        if not G.same(exp, got, 1e-9, tol):
            raise Violation('holes of the %s: %s' % (where, G.first_difference(exp, got)), G.show(exp), G.show(got))
        exp_t, got_t = E.model_tools(d, k), E.tool_list(f)
        if not G.same(exp_t, got_t, 1e-9, tol):
            raise Violation('tools of the %s' % where, G.show(exp_t), G.show(got_t))
        if f.units != units or f.settings.units != units or \
                any(t.settings.units != units for t in f.tools.values()) or \
                any(x.tool is not f.tools[x.tool.number] for x in f.hits):
            raise Violation('units or tool sharing of the %s' % where, units,
                            (f.units, [t.settings.units for t in f.tools.values()]))
        prims = f.primitives
        exp_p = [(('Drill', x[2], x[3]) if x[0] == 'hole' else ('Slot', x[2], x[3], x[4])) for x in exp]
        got_p = [(('Drill', p.diameter, tuple(p.position)) if type(p).__name__ == 'Drill' else
                  ('Slot', p.diameter, tuple(p.start), tuple(p.end))) for p in prims]
        if not G.same(exp_p, got_p, 1e-9, tol) or any(p.units != units for p in prims):
            raise Violation('primitives of the %s' % where, G.show(exp_p), G.show(got_p))
        boxes = []
        for x in exp:
            pts = x[3:5] if x[0] == 'slot' else x[3:4]
            r = x[2] / 2
            boxes.append(((min(p[0] for p in pts) - r, max(p[0] for p in pts) + r),
                          (min(p[1] for p in pts) - r, max(p[1] for p in pts) + r)))
        for b, x, p in zip(boxes, f.hits, prims):
            if not G.same(b, x.bounding_box, 1e-9, 2 * tol) or not G.same(b, p.bounding_box, 1e-9, 2 * tol):
                raise Violation('extent of a hole of the %s' % where, b, (x.bounding_box, p.bounding_box))
        total = tuple((min(b[a][0] for b in boxes), max(b[a][1] for b in boxes)) for a in (0, 1)) if boxes else None
        for name in ('bounding_box', 'bounds') if boxes else ():
            if not G.same(total, getattr(f, name), 1e-9, 2 * tol):
                raise Violation('%s of the %s' % (name, where), total, getattr(f, name))

        if base and not rewritten:
            # the numbers of the statements
            exp_s = [(n, [(v * k + {'x': dx, 'y': dy, '': 0}[a]) if v is not None else None for a, v in vs]) for n, vs in base]
            got_s = [(n, [v for a, v in vs]) for n, vs in statements(f)]
            if not G.same(exp_s, got_s, 1e-9, tol):
                raise Violation('numbers of the statements of the %s: %s' % (where, G.first_difference(exp_s, got_s)),
                                G.show(exp_s), G.show(got_s))
        if ('end' in DOCS[di] or 'endonly' in DOCS[di]) and not rewritten:
            # the position stated by the end of the program
            e = [s for s in f.statements if type(s).__name__ == 'EndOfProgramStmt' and s.x is not None]
            if len(e) != 1 or not G.same((12 / 4.0 * k + dx, k + dy), (e[0].x, e[0].y), 1e-9, tol):
                raise Violation('end position of the %s' % where, (3 * k + dx, k + dy), [(s.x, s.y) for s in e])

    # (steps and incremental positions do not move)
    base = statements(f) if not any(c[0] in ('ICI', 'G91', 'ff') for c in cmds) else None
    st = (k, dx, dy, units, tol, rewritten)
    check(f, st, 'result')
    for op in hist:
        src = f if op.startswith('copy-') else None
        k, dx, dy, units, tol, rewritten = old = st
        inch = 1 if units == 'inch' else 1 / 25.4
        before = (units, round(dx * inch, 6), round(dy * inch, 6), rewritten)
        target = op[5:] if op in ('copy-inch', 'copy-metric') else op if op in ('inch', 'metric') else None
        if target:
            if src is not None:
                f = getattr(operations, 'to_' + target)(src)
            else:
                getattr(f, 'to_' + target)()
            if target != units:
                s = 25.4 if target == 'metric' else 1 / 25.4
                k, dx, dy, units = k * s, dx * s, dy * s, target
                tol = max(1e-9, tol * s)
        elif op in OFF or 'at' in op:
            ox, oy = OFF[op] if op in OFF else COINCIDE[int(op[-1])]
            if src is not None:
                f = operations.offset(src, ox, oy)
            else:
                f.offset(ox, oy)
            dx, dy = dx + ox, dy + oy
        elif op == 'rewrite':
            path = ctx.scratch + '/h.drl'
            f.write(path)
            f = excellon.read(path) if h in ('in', 'mm') else \
                excellon.loads(open(path).read(), settings=f.settings)
            tol, rewritten = tol + 2e-5, True
        elif op == 'prims':
            # drawable objects are the caller's: converting them does not touch the file
            for p in f.primitives:
                p.to_metric() if units == 'inch' else p.to_inch()
                p.offset(1.0, 1.0)
        done.append(op)
        st = (k, dx, dy, units, tol, rewritten)
        inch = 1 if units == 'inch' else 1 / 25.4
        ctx.transition(before, op, (units, round(dx * inch, 6), round(dy * inch, 6), rewritten))
        check(f, st, 'result')
        if src is not None:
            if f is src:
                raise Violation('copy after %s\nprogram:\n%s' % (done, text), 'another file', 'the file itself')
            check(src, old, 'copied original')
    ctx.trace()
    return G.show(E.file_hits(f))
