"""P14: hole counts, path lengths, drill reports and tool updates agree with the holes of the file."""
from itertools import product
import math
import re

from mc import emodel as E
from mc import espace as S
from mc import gmodel as G
from mc.core import Violation
from mc.props import p11_drill_machine as P11

PID = 'P14'
LEVEL = 'model_checking'
RULE = ('every history (sequence of tool updates, unit conversions, translations and rewrites) up to a fixed length on '
        'every document; after every step counts, path lengths, report, extents and tool table are compared with '
        'values recomputed from the model; plus all documents of P11 (the long ones too) without history; outcome = report text')
BOUNDS = {'quick': '10 operations, histories <= 3 on 5 documents, <= 1 on 11x11 pairs of pieces in 2 headers',
          'thorough': '10 operations, histories <= 4 on 5 documents, <= 2 on 11x11 pairs of pieces'}
ASSUMPTIONS = ('the path of a tool starts at the origin and visits its holes in file order; a slot is travelled from '
               'its start to its end', 'each tool update names a tool of the file')
OPS = {'d1': ('update', 1, dict(diameter=0.75)), 'd2': ('update', 2, dict(diameter=0.125)),
       'p1': ('update', 1, dict(feed_rate=0.5, rpm=2000.0)), 'p2': ('update', 2, dict(retract_rate=0.25,
                                                                                       max_hit_count=3.0,
                                                                                       depth_offset=0.0)),
       'd3': ('update', 3, dict(diameter=1.0, rpm=1000.0)), 'inch': ('inch',), 'metric': ('metric',),
       'offset': ('offset', 0.5, 1.0), 'rewrite': ('rewrite',), 'd1b': ('update', 1, dict(diameter=0.375, feed_rate=0.0))}
DOCS = [['holes', 'holes2'], ['repeat', 'g85'], ['rout2', 'holes'], ['rout3', 'inc'], ['next', 'zero', 'holes']]
HEADS = {'in': [['M48'], ['FF', 3, 5], ['u', 'INCH', 'TZ', None]], 'mm': [['M48'], ['FF', 3, 5], ['u', 'METRIC', 'LZ', None]]}
ATTRS = ('feed_rate', 'retract_rate', 'rpm', 'max_hit_count', 'depth_offset')


def cases(tier):
    quick = tier == 'quick'
    names = sorted(S.PIECES)
    for n in range(0, 2 if quick else 3):
        for hist in product(sorted(OPS), repeat=n):
            for combo in product(names, repeat=2):
                for h in ('in', 'mm'):
                    if n and h == 'mm':
                        continue
                    yield [h, list(combo), list(hist)]
    for kind, h, n in S.longs(quick):
        for hist in ([], ['inch'], ['metric'], ['d1'], ['offset']):
            yield [h[:2], [kind, h, n], hist]
    for n in range(1, 4 if quick else 5):
        for hist in product(sorted(OPS), repeat=n):
            for i, combo in enumerate(DOCS + [['zerosize', 'holes']] if n < 3 else DOCS):
                yield ['in' if (i + n) % 2 else 'mm', combo, list(hist)]


def lengths(hits):
    out, pos = {}, {}
    for h in hits:
        for p in h[3:5] if h[0] == 'slot' else h[3:4]:
            q = pos.get(h[1], (0.0, 0.0))
            out[h[1]] = out.get(h[1], 0.0) + math.hypot(p[0] - q[0], p[1] - q[1])
            pos[h[1]] = p
    return out


def run(case, ctx):
    h, combo, hist = case
    if isinstance(combo[-1], int):
        cmds = S.long_document(*combo)
        if hist == ['d1'] and ['T', 1] not in [c[:2] for c in cmds]:
            return None
        return judge(cmds, hist, ctx)
    cmds = HEADS[h] + [['T', n, S.TOOLS[n]] for n in (1, 2, 3)] + [['%']]
    for p in combo:
        cmds = cmds + S.PIECES[p]
    return judge(cmds + [['M30']], hist, ctx)


def judge(cmds, hist, ctx):
    from gerber import excellon
    text = E.render(cmds)
    d = E.interpret(cmds)
    f = P11.load(cmds, text)
    tools = dict((n, dict(diameter=float(E.TQ * d.tools[n]), **dict.fromkeys(ATTRS))) for n in d.order)
    k, dx, dy, units, tol, rewritten = 1.0, 0.0, 0.0, d.units, 1e-9, False
    done = []

    def check():
        where = 'after %s\nprogram:\n%s' % (done, text)
        hits = E.model_hits(d, k, dx, dy)
        if rewritten:
            hits = E.by_tool(hits, d.order)
        hits = [x[:2] + (tools[x[1]]['diameter'],) + x[3:] for x in hits]
        if not G.same(hits, E.file_hits(f), 1e-9, tol):
            raise Violation('holes %s' % where, G.show(hits), G.show(E.file_hits(f)))
        counts = dict((n, sum(1 for x in hits if x[1] == n)) for n in d.order)
        if f.hit_count() != counts or any(f.hit_count(n) != counts[n] for n in counts):
            raise Violation('hit counts %s' % where, counts, f.hit_count())
        want, got = lengths(hits), f.path_length()
        if sorted(want) != sorted(got) or not all(G.same(want[n], got[n], 1e-9, 50 * tol) for n in want):
            raise Violation('path lengths %s' % where, want, got)
        for n in d.order:
            if not G.same(want.get(n, 0.0), f.path_length(n) or 0.0, 1e-9, 50 * tol):
                raise Violation('path length of tool %d %s' % (n, where), want.get(n), f.path_length(n))
        for n in d.order:
            t = f.tools[n]
            have = dict((a, getattr(t, a)) for a in ATTRS + ('diameter',))
            for a, v in tools[n].items():
                if not G.same(v, have[a], 1e-9, tol):
                    raise Violation('%s of tool %d %s' % (a, n, where), v, have[a])
        box = None
        for x in hits:
            r = x[2] / 2
            for p in x[3:5] if x[0] == 'slot' else x[3:4]:
                b = (p[0] - r, p[0] + r, p[1] - r, p[1] + r)
                box = b if box is None else (min(box[0], b[0]), max(box[1], b[1]), min(box[2], b[2]), max(box[3], b[3]))
        if box and not G.same(((box[0], box[1]), (box[2], box[3])), f.bounding_box, 1e-9, 2 * tol):
            raise Violation('bounding box %s' % where, box, f.bounding_box)
        rep = f.report()
        rows = re.findall(r'^\s*T(\d+)\s+(\S+)\s+(\d+)\s+([0-9.]+)(in|mm)', rep, re.M)
        u = 'in' if units == 'inch' else 'mm'
        exp = [(n, tools[n]['diameter'], counts[n], want.get(n, 0.0), u) for n in d.order]
        got = [(int(a), float(b), int(c), float(l), m) for a, b, c, l, m in rows]
        dec = 0.51 * 10 ** -f.settings.format[1]
        if len(exp) != len(got) or not all(
                e[0] == g[0] and e[2] == g[2] and e[4] == g[4] and abs(e[1] - g[1]) <= dec + tol
                and abs(e[3] - g[3]) <= 1e-6 + 50 * tol for e, g in zip(exp, got)):
            raise Violation('drill report %s\n%s' % (where, rep), exp, got)
        if ('Inches' in rep) != (units == 'inch') or ('Millimeters' in rep) == (units == 'inch') or \
                ('Absolute' in rep) != (f.settings.notation == 'absolute'):
            raise Violation('units or data mode in the report %s' % where, (units, f.settings.notation), rep)
        return rep

    rep = check()
    for name in hist:
        op = OPS[name]
        before = (units, rewritten, tuple(sorted((n, sorted((a, str(v)) for a, v in t.items())) for n, t in tools.items())))
        if op[0] == 'update':
            f.update_tool(op[1], **op[2])
            tools[op[1]].update(op[2])
        elif op[0] in ('inch', 'metric'):
            getattr(f, 'to_' + op[0])()
            if op[0] != units:
                s = 25.4 if op[0] == 'metric' else 1 / 25.4
                k, dx, dy, units, tol = k * s, dx * s, dy * s, op[0], max(1e-9, tol * s)
                for t in tools.values():
                    t['diameter'] *= s
        elif op[0] == 'offset':
            f.offset(op[1], op[2])
            dx, dy = dx + op[1], dy + op[2]
        else:
            path = ctx.scratch + '/a.drl'
            f.write(path)
            with open(path) as fh:
                out = fh.read()
            f = excellon.loads(out)
            tol, rewritten = tol + 2e-5, True
        done.append(name)
        ctx.transition(before, name, (units, rewritten, tuple(
            sorted((n, sorted((a, str(v)) for a, v in t.items())) for n, t in tools.items()))))
        rep = check()
    ctx.trace()
    path = ctx.scratch + '/report.txt'
    f.filename = 'some file.drl'
    full = f.report(path)
    with open(path) as fh:
        saved = fh.read()
    if full is not None and saved != full or 'some file.drl' not in saved or \
            saved.replace('NC Drill File: some file.drl\n\n', '') != rep:
        raise Violation('saved report', rep, saved)
    return rep
