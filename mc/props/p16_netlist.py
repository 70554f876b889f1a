"""P16: every field of an IPC-D-356 netlist is decoded as the format defines, and the net summary agrees with the records."""
from itertools import product

from mc import gmodel as G
from mc.core import Violation

PID = 'P16'
LEVEL = 'model_checking'
RULE = ('(a) every test record over a lattice of its fields, spelled with zeros or blanks, cut off after every field, in '
        'every unit mode; (b) every outline, conductor and adjacency record of a lattice, on one line or continued; '
        '(c) every sequence of lines of a catalogue up to a fixed length, model state = (units, net name variables, '
        'records, adjacency); (d) every value of every number field, one at a time; (e) netlists with n name variables, records, adjacent nets, '
        'continuation lines or outline points; nets, vias, components and drawn test points are compared with the model; outcome = '
        'decoded records')
BOUNDS = {'quick': '(a) heads x 3 tails and 3 heads x tails; (c) 23 lines, sequences <= 3 with 2 prologues; (d) 0..9999, 0..359 and '
                   'coordinates of every length; (e) 5 kinds x 25 numbers up to 1000',
          'thorough': '(a) the same with every head x tail pairing of 40 x 300; (c) sequences <= 4'}
ASSUMPTIONS = ('test records hold at least their coordinates and access code 0..8; units come before records and net '
               'name variables before their uses', 'optional information columns are not considered')
UNITS = {'CUST': ('inch', 'degrees'), 'CUST 0': ('inch', 'degrees'), 'CUST 1': ('metric', 'degrees'),
         'CUST 2': ('inch', 'radians'), None: ('inch', 'degrees')}
KIND = {'317': 'through-hole', '327': 'smt', '367': 'non-plated-tooling-hole'}
ACCESS = ['both', 'top', 'layer2', 'layer3', 'layer4', 'layer5', 'layer6', 'layer7', 'bottom']
MASK = ['none', 'primary side', 'secondary side', 'both']
NETS = ['', 'GND', '+3.3V', 'NET-A', 'N/C', 'FOURTEEN_CHARS']
IDS = [('VIA', None, ''), ('VIA', None, '-'), ('R1', '1', '-'), ('C12', '+', '-'), ('D3', '-', '-'),
       ('CONN10', 'A12', '-'), ('CONNECTOR', '2', '-'), ('COMMUNICATION', '1234', '-'), ('', None, ''),
       ('VIA1', '2', '-'), ('VIAS', None, ''), ('via', None, '')]
COORDS = [(0, 0), (6600, -1450), (-100, 16500), (999999, -99999), (7, 1)]


def number(v, width, style):
    """a signed number in a field: blanks, zeros or zeros after the sign"""
    if style == 'blank':
        return ('%d' % v).rjust(width)
    if style == 'zero':
        return ('-' if v < 0 else ' ') + str(abs(v)).zfill(width - 1)
    return ('-' if v < 0 else '+') + str(abs(v)).zfill(width - 1)


def unsigned(v, width, style):
    return ('%d' % v).rjust(width) if style == 'blank' else str(v).zfill(width)


def record(r, style):
    """text of a test record; r holds None for fields left blank; everything after the last field is cut off"""
    ident, pin, dash = r['id']
    s = '%s%-14s   %-6s%s%-4s' % (r['op'], r['net'], ident, dash or ' ', pin or '')
    s += 'M' if r['mid'] else ' '
    s += 'D' + unsigned(r['dia'], 4, style) if r['dia'] is not None else '     '
    s += {True: 'P', False: 'U', None: ' '}[r['plated']]
    s += 'A%02d' % r['access']
    s += 'X' + number(r['x'], 7, style)
    s += 'Y' + number(r['y'], 7, style)
    tail = ''
    tail += 'X' + unsigned(r['w'], 4, style) if r['w'] is not None else '     '
    tail += 'Y' + unsigned(r['h'], 4, style) if r['h'] is not None else '     '
    tail += 'R' + unsigned(r['rot'], 3, style) if r['rot'] is not None else '    '
    tail += ' '
    tail += 'S%d' % r['mask'] if r['mask'] is not None else '  '
    tail += ' ' + (r.get('opt') or '')
    return (s + tail).rstrip() if tail.strip() else s


def heads():
    for op, net, ident, mid, dia, plated in product(sorted(KIND), NETS, IDS, (False, True), (None, 40, 1500),
                                                    (None, True, False)):
        yield dict(op=op, net=net, id=list(ident), mid=mid, dia=dia, plated=plated)


def tails():
    for access, (x, y), w, h, rot, mask, opt in product((0, 1, 4, 8), COORDS, (None, 0, 396), (None, 1200), (None, 0, 90, 270),
                                                        (None, 0, 3), (None, 'WXYZ')):
        yield dict(access=access, x=x, y=y, w=w, h=h, rot=rot, mask=mask, opt=opt)


LINES = ['C  a comment', '', 'P  JOB board', 'P  NNAME1 A_REALLY_LONG_NET_NAME', 'P  NNAME22  ANOTHER_QUITE_LONG_NAME',
         ('rec', 'GND', 'R1', '1', 0, 100, 200), ('rec', 'VCC', 'C2', '2', 1, -100, 200), ('rec', 'GND', 'VIA', None, 0, 0, -5),
         ('rec', 'NNAME1', 'U3', '7', 8, 3000, 1), ('rec', 'NNAME22', 'R1', '2', 1, 5, 5), ('rec', '', '', None, 0, 1, 1),
         ('rec', 'NNAME1', 'VIA', None, 4, 2, 3), ('rec', 'GND', 'VIA1', '2', 0, 9, 9), ('rec', 'VCC', 'AVIA', '1', 1, 9, 8),
         ('adj', ['GND', 'VCC']), ('adj', ['VCC', 'NNAME1', 'GND']), ('adj', ['NNAME1', 'GND']), ('adj', ['GND']),
         ('adj2', ['GND', 'NNAME22', 'VCC']), ('outline', 'BOARD_EDGE', [(0, 0), (200, None), (None, 300), (-5, 7)]),
         ('outline2', 'OTHER_FAB', [(10, 20), (-30, None), (None, -40)]),
         ('conductor', 'GND', 1, (60, None), [[(0, 0), (100, None)], [(5, -5), (None, 7), (8, None)]]), '999']


def line_text(l):
    if isinstance(l, str):
        return l
    if l[0] == 'rec':
        return record(dict(op='317', net=l[1], id=(l[2], l[3], '-' if l[3] else ''), mid=False, dia=24, plated=True,
                           access=l[4], x=l[5], y=l[6], w=396, h=None, rot=None, mask=None), 'blank')
    if l[0] == 'adj':
        return '379%-14s ' % l[1][0] + ' '.join('%-14s' % n for n in l[1][1:])
    if l[0] == 'adj2':
        return '379%-14s ' % l[1][0] + l[1][1] + '\n079 ' + ' '.join(l[1][2:])
    if l[0] in ('outline', 'outline2'):
        sep = [' '] * len(l[2])
        if l[0] == 'outline2':
            sep[1] = '\n089  '
        return '389%-14s ' % l[1] + ''.join(s + point(p) for s, p in zip(sep, l[2]))
    if l[0] == 'adjn':      # four names on a line
        rest = ['%-14s' % x for x in l[1][1:]]
        return '379%-14s ' % l[1][0] + '\n079 '.join(' '.join(rest[k:k + 4]) for k in range(0, len(rest), 4))
    if l[0] == 'outlinen':      # three points on a line
        ps = [point(p) for p in l[2]]
        return '389%-14s ' % l[1] + '\n089 '.join(' '.join(ps[k:k + 3]) + (' ' if k % 2 else '') for k in range(0, len(ps), 3))
    if l[0] == 'conductor':
        return '378%-14s L%02d  ' % (l[1], l[2]) + point(l[3]) + ' ' + ' * '.join(
            ' '.join(point(p) for p in shape) for shape in l[4])
    raise AssertionError(l)


def point(p, fmt='%d'):
    return ''.join(c + fmt % v for c, v in zip('XY', p) if v is not None)


def points(ps, k):
    x = y = 0
    out = []
    for a, b in ps:
        x = x if a is None else a
        y = y if b is None else b
        out.append((x * k, y * k))
    return out


def cases(tier):
    quick = tier == 'quick'
    hs, ts = list(heads()), list(tails())
    for u in (None, 'CUST 1', 'CUST 2'):
        styles = ('zero', 'blank', 'sign')
        for n, h in enumerate(hs):
            yield ['rec', u, h, [ts[0], ts[100], ts[-1]], styles[n % 3]]
        for n, h in enumerate([hs[0], hs[100], hs[200], hs[-1]]):
            for style in styles:
                for k in range(0, len(ts), 10):
                    yield ['rec', u, h, ts[k:k + 10], style]
        # the last of several unit parameters counts
        for n in range(1, 3 if quick else 4):
            for prefix in product(sorted(k for k in UNITS if k), repeat=n):
                if u is not None:
                    yield ['rec', u, hs[100], [ts[0], ts[100], ts[-1]], 'zero', list(prefix)]
        if not quick:
            for n, h in enumerate(hs[::7]):
                for k in range(0, len(ts), 30):
                    yield ['rec', u, h, ts[k:k + 30:3], styles[n % 3]]
    vals = [0, 7, -100, 22500, -123456]
    for u in (None, 'CUST 1'):
        for a, b, c, d in product(vals, vals[:4] + [None], vals, vals[2:] + [None]):
            for kind in ('outline', 'outline2', 'conductor'):
                for fmt in ('%d', '%+07d') if kind != 'conductor' else ('%d',):
                    yield ['shape', u, kind, [(a, 1), (c, b), (2, d)], fmt]
    for c in field_cases(quick):
        yield c
    for pro in (None, 'CUST 1'):
        for n in range(0, 4 if quick else 5):
            for combo in product(range(len(LINES)), repeat=n):
                yield ['seq', pro, list(combo)]


SCALE = (1, 2, 3, 5, 8, 9, 10, 11, 12, 16, 20, 25, 32, 33, 50, 64, 65, 99, 100, 101, 128, 200, 256, 500, 1000)
PLAIN = dict(op='317', net='GND', id=['R1', '1', '-'], mid=False, dia=24, plated=True, access=0, x=100, y=-200, w=396, h=50, rot=90,
             mask=1)


def field_cases(quick):
    for u in (None, 'CUST 1', 'CUST 2'):
        for n, style in enumerate(('zero', 'blank', 'sign')):
            for key in ('dia', 'w', 'h'):
                for a in range(n, 10000 if style != 'sign' or key != 'dia' else 10000, 300 if quick else 50):
                    yield ['field', u, style, key, list(range(a, min(a + 300, 10000), 7 if quick else 1))]
            yield ['field', u, style, 'rot', list(range(360))]
            yield ['field', u, style, 'access', list(range(9))]
            yield ['field', u, style, 'mask', [0, 1, 2, 3]]
            yield ['field', u, style, 'opt', ['A', 'B2', 'S 3', 'X0Y0', '-1+2', None]]
            for key in 'xy':
                vals = sorted(set(int(d) * k for d in ('1', '5', '9', '12', '98', '102', '999') for k in
                                  (1, 10, 100, 1000, 10000, 100000) if int(d) * k < 10 ** 6))
                yield ['field', u, style, key, vals + [-v for v in vals] + [0]]
    for u in (None, 'CUST 1'):
        for kind in ('names', 'records', 'adjacent', 'adjacent2', 'outline', 'layers'):
            for n in SCALE:
                yield ['many', u, kind, n]


def many(kind, n):
    """lines of a netlist with n of something, the sequence model's form"""
    if kind == 'names':
        var = ['NNAME%d' % (m * m) if m % 2 else 'NNAME%d' % m for m in range(n)]
        return (['P  %s  LONG_NET_NAME_NUMBER_%d' % (v, k) for k, v in enumerate(dict.fromkeys(var))] +
                [('rec', v, 'R%d' % k, '1', k % 9, k, -k) for k, v in enumerate(var)] + [('adj', [v, 'GND']) for v in var[:20]])
    if kind == 'records':
        return [('rec', 'N%d' % (k % 13), ['R%d' % k, 'VIA', 'C%d' % (k % 7)][k % 3], None if k % 3 == 1 else '%d' % (k % 9), k % 9, k * 7, -k)
                for k in range(n)]
    if kind == 'adjacent':
        return [('rec', 'N%d' % k, 'VIA', None, 0, k, k) for k in range(n)] + [('adj', ['N%d' % k, 'N%d' % ((k * 3 + 1) % n)]) for k in range(n)]
    if kind == 'adjacent2':
        return [('rec', 'N0', 'VIA', None, 0, 1, 1), ('adjn', ['N%d' % k for k in range(n + 1)])]
    if kind == 'outline':
        return [('outlinen', 'BOARD_EDGE', [(k * 7 % 1000, None if k % 5 == 4 else -k) for k in range(n)])]
    return [('conductor', 'GND', k % 100, (60, None), [[(0, k), (k + 1, None)]] * (k % 4 + 1)) for k in range(n)]


def expect_record(r, u):
    units, angle = UNITS[u]
    k = 0.0001 if units == 'inch' else 0.001
    e = dict(feature_type=KIND[r['op']], net_name=r['net'], id=r['id'][0], pin=r['id'][1],
             location='middle' if r['mid'] else 'end', access=ACCESS[r['access']], x_coord=r['x'] * k,
             y_coord=r['y'] * k, plated=r['plated'] is True)
    for key, f, q in (('dia', 'hole_diameter', k), ('w', 'rect_x', k), ('h', 'rect_y', k)):
        e[f] = None if r[key] is None else r[key] * q
    e['rect_rotation'] = None if r['rot'] is None else r['rot'] * (1 if angle == 'degrees' else 57.29577951308232)
    e['soldermask_info'] = None if r['mask'] is None else MASK[r['mask']]
    e['optional_info'] = r.get('opt')
    return e


def run(case, ctx):
    from gerber import ipc356
    u = case[1]
    head = 'P  JOB test\n' + ('P  UNITS %s\n' % u if u else '')
    units, angle = UNITS[u]
    k = 0.0001 if units == 'inch' else 0.001
    if case[0] == 'field':
        case = ['rec', u, PLAIN, [{case[3]: v} for v in case[4]], case[2]]
    if case[0] == 'rec':
        recs = [dict(case[2], **t) for t in case[3]]
        if len(case) > 5:
            head = ''.join('P  UNITS %s\n' % x for x in case[5]) + head
        text = head + ''.join(record(r, case[4]) + '\n' for r in recs) + '999\n'
        f = ipc356.loads(text)
        ctx.trace()
        if len(f.test_records) != len(recs) or len(f.primitives) != len(recs):
            raise Violation('number of records\n' + text, len(recs), len(f.test_records))
        for r, t, p in zip(recs, f.test_records, f.primitives):
            e = expect_record(r, u)
            got = {a: getattr(t, a, None) for a in e}
            for a in e:
                if not G.same(e[a], got[a], 1e-9, 1e-12):
                    raise Violation('%s of record\n%s' % (a, record(r, case[4])), e[a], got[a])
            if not G.same((e['x_coord'], e['y_coord']), tuple(p.position)) or p.net_name != e['net_name'] \
                    or p.layer != e['access']:
                raise Violation('drawn test point of\n' + record(r, case[4]), e, (p.position, p.net_name, p.layer))
        if (f.units, f.settings.units, f.settings.angle_units) != (units, units, angle):
            raise Violation('units', (units, angle), (f.units, f.settings.angle_units))
        return text
    if case[0] == 'shape':
        _, _, kind, pts, fmt = case
        pts = [tuple(p) for p in pts]
        if kind == 'conductor':
            l = ('conductor', 'GND', 3, (60, None), [pts, pts[::-1]])
            text = line_text(l)
        else:
            sep = [' ', '\n089  ' if kind == 'outline2' else ' ', ' ']
            text = '389BOARD_EDGE     ' + ''.join(s + point(p, fmt) for s, p in zip(sep, pts))
        text = head + text + '\n999\n'
        f = ipc356.loads(text)
        ctx.trace()
        if kind == 'conductor':
            got = [c for c in f.statements if type(c).__name__ == 'IPC356_Conductor']
            e = ['GND', 3, (60 * k, None), [points(pts, k), points(pts[::-1], k)]]
            got = [[c.net_name, c.layer, c.aperture, [list(s) for s in c.shapes]] for c in got]
        else:
            e = ['BOARD_EDGE', points(pts, k)]
            got = [[o.type, list(o.points)] for o in f.outlines]
        if not G.same([e], got):
            raise Violation('shape of\n' + text, [e], got)
        return repr(got)
    # sequences
    text = head
    names = {}
    state = (u, (), (), ())
    recs, adj, outl, cond, comments, params = [], [], [], [], 0, 1 + (u is not None)
    ctx.state(state)
    for n in case[2] if case[0] == 'seq' else many(*case[2:]):
        l = LINES[n] if case[0] == 'seq' else n
        text += line_text(l) + '\n'
        sub = lambda x: names.get(x, x)
        if isinstance(l, str):
            comments += l[:1] == 'C'
            params += l[:1] == 'P'
            if l.startswith('P  NNAME'):
                names[l.split()[1]] = l.split()[2]
        elif l[0] == 'rec':
            recs.append((sub(l[1]), l[2], (l[5] * k, l[6] * k), ACCESS[l[4]]))
        elif l[0] in ('adj', 'adj2', 'adjn'):
            adj.append([sub(x) for x in l[1]])
        elif l[0] == 'conductor':
            cond.append((sub(l[1]), l[2], (l[3][0] * k, None), [points(s, k) for s in l[4]]))
        else:
            outl.append((l[1], points(l[2], k)))
        new = case[0] == 'seq' and (u, tuple(sorted(names.items())), tuple(recs), tuple(map(tuple, adj)))
        if case[0] == 'seq':
            ctx.transition(state, n, new)
            state = new
        if l == '999':
            break
    f = ipc356.loads(text)
    ctx.trace()
    e = dict(records=recs, vias=len([r for r in recs if r[1] == 'VIA']),
             components=sorted(set(r[1] for r in recs) - {'VIA', ''}), outlines=outl, comments=comments, params=params,
             conductors=cond)
    nets = {r[0]: set() for r in recs}
    for a in adj:
        for o in a[1:]:
            if a[0] in nets:
                nets[a[0]].add(o)
            if o in nets:
                nets[o].add(a[0])
    e['nets'] = sorted((a, sorted(b)) for a, b in nets.items())
    got = dict(records=[(r.net_name, r.id, (r.x_coord, r.y_coord), r.access) for r in f.test_records],
               vias=len(f.vias), components=sorted(f.components), outlines=[(o.type, list(o.points)) for o in f.outlines],
               comments=len(f.comments), params=len(f.parameters),
               conductors=[(c.net_name, c.layer, c.aperture, [list(s) for s in c.shapes]) for c in f.statements
                           if type(c).__name__ == 'IPC356_Conductor'],
               nets=sorted((m.name, sorted(m.adjacent_nets)) for m in f.nets))
    for key in sorted(e):
        if not G.same(e[key], got[key], 1e-9, 1e-12):
            raise Violation('%s of\n%s' % (key, text), e[key], got[key])

    class Recorder(object):
        def __init__(self):
            self.seen = []

        def render(self, p):
            self.seen.append((tuple(p.position), p.net_name))
    for layer, sees in (('top', ('top', 'both')), ('bottom', ('bottom', 'both')), ('both', ('top', 'bottom', 'both'))):
        c = Recorder()
        f.render(c, layer)
        want = [(r[2], r[0]) for r in recs if r[3] in sees]
        if not G.same(want, c.seen):
            raise Violation('test points drawn on %s of\n%s' % (layer, text), want, c.seen)
    return repr(sorted(got.items()))
