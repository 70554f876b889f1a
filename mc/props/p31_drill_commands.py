"""P31: every command of a drill program is kept, in order, with its parameters."""
from fractions import Fraction
from itertools import product

from mc import emodel as E
from mc import espace as S
from mc import gmodel as G
from mc.core import Violation
from mc.props import p11_drill_machine as P11

PID = 'P31'
LEVEL = 'model_checking'
RULE = ('every program of P11 (each transition of the closed drilling machine; header forms x pieces x layouts; long documents), '
        'every sequence of rarely used commands, every combination of tool parameters, under every history of conversions and '
        'translations: the list of statements is that of the commands, with their kinds and parameters; the statements, written '
        'and read again, are the same; a rewritten file has all commands of the header. State = the modal state of the machine '
        'before each command; outcome = the statements')
BOUNDS = {'quick': 'programs as P11; sequences of <= 2 of 57 rare commands, 4 headers, number formats with and without '
                   'decimal points; 4^5 parameter combinations; histories of <= 2 of 3 operations',
          'thorough': 'sequences of <= 2 with all headers; histories of <= 4; programs as P11 thorough'}
ASSUMPTIONS = ('as P11; the mode statement of a routing command is a RouteModeStmt for G00 and G01 alike (pinned by the tests)',
               'translations only of files in absolute notation',
               'coordinates and tool parameters are representable in the number format')
RARE = [['raw', 'G40'], ['raw', 'G41'], ['raw', 'G42'], ['raw', 'F05'], ['raw', 'F200'], ['raw', 'F0'], ['raw', 'VER,1'],
        ['raw', 'VER,2'], ['t', 1, 5], ['t', 2, 0], ['t', 2, 99], ['t', 0], ['M30', 4, 8], ['M30', -4, None], ['M30', None, -8],
        ['M30', 0, 0], ['M30', -12, 5], [';', ''], [';', ' text ; with ; more'], [';', 'T=1 X1Y2 G85'], [';', 'M30'],
        ['raw', 'M47,hello X1Y2'], ['raw', 'M47,SIZES IN INCH,TZ'], ['raw', 'M97,METRIC'], ['raw', 'M97,ABC'], ['raw', 'G93X0Y0'], ['raw', 'M25'], ['raw', 'M01'], ['raw', 'M02X1Y2'],
        ['raw', 'S120'], ['raw', 'M08'], ['raw', 'G32X1Y1A1'], ['raw', 'P1'], ['raw', 'H100'], ['raw', 'D10'], ['raw', '/X1Y1'],
        ['raw', 'N5'], ['raw', 'a b  c'], ['raw', 'M99'], ['raw', 'OM30'], ['R', 5, None, None], ['R', 1, 4, 0], ['R', 99, 0, -1],
        ['R', 12, -4, 4], ['G85', 4, 4, 4, 4], ['G85', -4, None, None, 8], ['G85', None, -4, 0, None], ['xy', 0, 0],
        ['xy', -1, None], ['xy', None, -1], ['xy', 39, -39], ['ICI', 'ON'], ['ICI', 'OFF'], ['G90'], ['G91'], ['M00'], ['M16'], ['M17'],
        ['G05'], ['M95']]
UNITS = [['u', u, z, f] for u in ('INCH', 'METRIC') for z in ('LZ', 'TZ', None) for f in (None, [2, 4], [3, 3], [4, 2], [4, 3], [2, 5], [6, 7])]
PLAIN = {'M48': 'HeaderBegin', 'M95': 'HeaderEnd', '%': 'RewindStop', 'M15': 'ZAxisRoutPosition', 'M16': 'RetractWithClamping',
         'M17': 'RetractWithoutClamping', 'G05': 'DrillMode', 'G90': 'AbsoluteMode', 'G40': 'CutterCompensationOff',
         'G41': 'CutterCompensationLeft', 'G42': 'CutterCompensationRight'}
TOOL = {'B': 'retract_rate', 'F': 'feed_rate', 'H': 'max_hit_count', 'S': 'rpm', 'Z': 'depth_offset'}
VALUES = {'F': [None, 1, 2.5, 0], 'S': [None, 3, 65, 0.5], 'B': [None, 1, 12.25], 'H': [None, 4, 20, 0], 'Z': [None, 0.25, -0.5, 0]}
OPS = ('inch', 'metric', 'offset')


def hists(n):
    for k in range(1, n + 1):
        for h in product(OPS, repeat=k):
            yield list(h)


def cases(tier):
    quick = tier == 'quick'
    for c in P11.cases(tier):
        if c[0] == 'seq' or (c[0] == 'doc' and 'undef' in c[2]):
            continue
        if c[0] == 'long' and c[1] == 'fine':
            continue
        if c[0] == 'step' and not quick and c[1] != 'inTZ24' or c[0] == 'doc' and len(c[2]) == 3:
            continue
        yield ['prog', c, []]
    for c in P11.cases('quick'):
        if c[0] == 'doc' and 'undef' not in c[2] and c[3] == 'plain' and (len(c[2]) < 2 or not quick) or \
                c[0] in ('open', 'long') and (c[-1] == 'plain' and (not quick or c[1] == 'inTZ24')):
            for h in hists(2 if quick else 3):
                yield ['prog', c, h]
    heads = ('inTZ24', 'mmLZ33', 'inLZ26', 'mm') if quick else sorted(S.HEADS)
    for h in heads:
        for st in ('plain', 'decimal', 'indent'):
            for n in (0, 1, 2):
                if n == 2 and st != 'plain':
                    continue
                for seq in product(range(len(RARE)), repeat=n):
                    yield ['rare', h, st, list(seq), []]
    for k in range(len(RARE)):
        for h in ('inTZ24', 'mmLZ33'):
            for ops in hists(2 if quick else 4):
                yield ['rare', h, 'plain', [k], ops]
    for u in range(len(UNITS)):
        for m in ('none', 'M71', 'M72'):
            for ops in [[]] + list(hists(2)):
                yield ['unit', u, m, ops]
    for h in ('inTZ24', 'mmLZ33', 'inTZff', 'mmLZ42'):
        for combo in product(*[range(len(VALUES[k])) for k in 'FSBHZ']):
            yield ['tool', h, list(combo), []]
            if not quick or h == 'mmLZ33':
                for op in OPS:
                    yield ['tool', h, list(combo), [op]]


# ------------------------------------------------------------------------------------------------------ model
def num(v):
    return None if v is None else float(Fraction(v) * E.Q)


def expected(cmds, style=None, tool_line=None):
    """[(statement, settings of its place)]: the statement is a list [kind, parameters...], a length is ('len', value, axis)"""
    d = E.Drill()
    out = []

    def emit(*s):
        out.append((list(s), (d.units, d.fmt, d.zeros)))

    def x(v):
        return ('len', num(v), 'x')

    def y(v):
        return ('len', num(v), 'y')
    for c in cmds:
        op = c[0]
        before = d.clone()
        d.apply(c)
        if op == 'raw' and c[1] in PLAIN:
            op = c[1]
        if op in PLAIN:
            emit(PLAIN[op])
        elif op == 'u':
            emit('Unit', d.units, 'leading' if c[2] == 'LZ' else 'trailing', tuple(c[3]) if c[3] else None)
        elif op in ('M71', 'M72'):
            emit('MeasuringMode', d.units)
        elif op == 'FF':
            emit('Comment', ('FILE_FORMAT=%d:%d', ' FILE_FORMAT=%d:%d')[bool(style and (style.blank or style.comments))] % tuple(c[1:]))
        elif op == 'FMAT':
            emit('Format', c[1])
        elif op == 'T':
            feed = 0.0 if style is not None and style.dialect == 'feeds' else None
            par = {'feed_rate': feed, 'rpm': feed}
            if tool_line and c[1] == 1:
                par = tool_line
            emit('Tool', c[1], ('len', float(Fraction(c[2]) * E.TQ), None),
                 [par.get(a) for a in ('feed_rate', 'retract_rate', 'rpm', 'max_hit_count', 'depth_offset')])
        elif op == 't':
            emit('ToolSelection', c[1], c[2] if len(c) > 2 else None)
        elif op == 'M00':
            emit('NextToolSelection', before.tool, d.tool)
        elif op == 'xy':
            emit('Coordinate', x(c[1]), y(c[2]), None)
        elif op == 'R':
            emit('RepeatHole', c[1], ('len', num(c[2] or 0), None), ('len', num(c[3] or 0), None))
        elif op == 'G85':
            ends = c[3:]
            if before.notation == 'abs':
                ends = [c[1] if c[3] is None else c[3], c[2] if c[4] is None else c[4]]
            emit('Slot', x(c[1]), y(c[2]), x(ends[0]), y(ends[1]))
        elif op == 'G00':
            emit('RouteMode')
            emit('Coordinate', x(c[1]), y(c[2]), 'ROUT')
        elif op == 'G01':
            emit('RouteMode')
            emit('Coordinate', x(c[1]), y(c[2]), 'LINEAR')
        elif op in ('ICI', 'G91'):
            emit('IncrementalMode', c[1].lower() if c[1:] else 'on')
        elif op == 'M30':
            emit('EndOfProgram', x(c[1] if len(c) > 1 else None), y(c[2] if len(c) > 1 else None))
        elif op == ';':
            emit('Comment', c[1].rstrip())
        elif op == 'raw' and c[1][0] == 'F' and c[1][1:].isdigit():
            emit('ZAxisInfeedRate', int(c[1][1:]))
        elif op == 'raw' and c[1][:4] == 'VER,':
            emit('Version', int(c[1][4:]))
        elif op == 'raw' and c[1][:5] == 'FMAT,':
            emit('Format', int(c[1][5:]))
        elif op == 'raw':
            emit('Unknown', c[1])
        else:
            raise KeyError(op)
        if style is not None and style.comments:
            emit('Comment', ' a remark, X1Y2 T9C1')
    return out, d


def after(stmt, k, dx, dy, units):
    """the statement after conversions and translations"""
    out = []
    for v in stmt:
        if isinstance(v, tuple) and v and v[0] == 'len':
            v = None if v[1] is None else v[1] * k + {'x': dx, 'y': dy, None: 0.0}[v[2]]
        out.append(v)
    if out[0] in ('Unit', 'MeasuringMode') and units:
        out[1] = units
    return out


def observed(s):
    name = type(s).__name__
    if name == 'ExcellonTool':
        return ['Tool', s.number, s.diameter, [s.feed_rate, s.retract_rate, s.rpm, s.max_hit_count, s.depth_offset]]
    if not name.endswith('Stmt'):
        return [name]
    name = name[:-4]
    if name == 'NextToolSelection':
        return [name, s.cur_tool.number, s.next_tool.number]
    if name == 'RepeatHole':
        return [name, s.count, s.xdelta or 0.0, s.ydelta or 0.0]
    fields = {'Unit': ('units', 'zeros', 'format'), 'MeasuringMode': ('units',), 'Comment': ('comment',), 'Format': ('format',),
              'ToolSelection': ('tool', 'compensation_index'), 'Coordinate': ('x', 'y', 'mode'), 'IncrementalMode': ('mode',),
              'Slot': ('x_start', 'y_start', 'x_end', 'y_end'), 'EndOfProgram': ('x', 'y'), 'ZAxisInfeedRate': ('rate',),
              'Version': ('version',), 'Unknown': ('stmt',)}
    return [name] + [getattr(s, a) for a in fields.get(name, ())]


def program(case, ctx):
    """commands, style, tool line, tool parameters, operations"""
    if case[0] == 'prog':
        cmds, style = P11.program(case[1], ctx)
        return cmds, style, None, None, case[2]
    if case[0] == 'rare':
        _, h, st, seq, ops = case
        cmds = S.head(h) + [['t', 1], ['xy', 4, 4]]
        for k in seq:
            # only tool 1 has a next one
            cmds = cmds + ([['t', 1]] if RARE[k][0] == 'M00' else []) + [RARE[k]]
            if RARE[k] == ['t', 0]:
                cmds = cmds + [['xy', 8, 8]]
        return cmds + [['xy', 8, 4], ['M30']], S.STYLES[st], None, None, ops
    if case[0] == 'unit':
        _, u, m, ops = case
        u = UNITS[u]
        cmds = [['M48']] + ([] if u[3] else [['FF', 3, 4]]) + [u]
        if m != 'none':
            # a measuring mode of the other units would change the meaning of the tools
            cmds += [['M72' if u[1] == 'INCH' else 'M71']] if m == 'M71' else []
            cmds += [[';', 'no unit']] if m == 'M72' else []
        return cmds + [['T', 1, 16], ['%'], ['t', 1], ['xy', 4, -8], ['G85', 4, None, None, 4], ['M30', 1, 4]], None, None, None, ops
    _, h, combo, ops = case
    vals = {k: VALUES[k][n] for k, n in zip('FSBHZ', combo)}
    line = 'T01C0.5' + ''.join('%s%s' % (k, decimal(v)) for k, v in sorted(vals.items(), key=lambda kv: 'FSBHZ'.index(kv[0]))
                               if v is not None)
    par = {TOOL[k]: None if v is None else v * (1000.0 if k == 'S' else 1.0) for k, v in vals.items()}
    return S.head(h) + [['t', 1], ['xy', 4, 4], ['M30']], None, line, par, ops


def decimal(v):
    s = '%.2f' % v
    s = s.rstrip('0')
    return s


def differ(what, exp, got, text):
    if not G.same(exp, got):
        raise Violation('%s: %s\nprogram:\n%s' % (what, G.first_difference(exp, got), text), G.show(exp), G.show(got))


def parser(cmds, text, f):
    """what the parser of a program reports about it is what its statements say"""
    from gerber import excellon
    from gerber.cam import FileSettings
    p = excellon.ExcellonParser(FileSettings(**excellon.detect_excellon_format(text)) if E.declares_all(cmds) else
                                E.settings_of(cmds, FileSettings))
    p.parse_raw(text)
    st = [(type(s).__name__, s) for s in f.statements]
    xy = [(s.x, s.y) for n, s in st if n == 'CoordinateStmt']
    differ('coordinates of the parser', xy, list(p.coordinates), text)
    differ('hole sizes of the parser', [s.diameter for n, s in st if n == 'ExcellonTool'], list(p.hole_sizes), text)
    differ('hole count of the parser', len(f.hits), p.hole_count, text)
    if all(any(q[a] is not None for q in xy) for a in (0, 1)):
        differ('bounds of the parser', [(min(v), max(v)) for v in ([q[a] for q in xy if q[a] is not None] for a in (0, 1))],
               list(p.bounds), text)


def run(case, ctx):
    from gerber import excellon
    from gerber.cam import FileSettings
    cmds, style, line, par, ops = program(case, ctx)
    text = E.render(cmds, style)
    if line:
        assert 'T01C0.5\n' in text, text
        text = text.replace('T01C0.5\n', line + '\n', 1)
    want, d = expected(cmds, style, par)
    f = P11.load(cmds, text)
    ctx.trace()
    state = None
    dd = E.Drill()
    for c in cmds:
        src = dd.canon()
        dd.apply(c)
        ctx.transition(src, c[0], dd.canon())
    differ('statements', [after(s, 1.0, 0.0, 0.0, None) for s, _ in want], [observed(s) for s in f.statements], text)
    # as written, each where it stands, they are the same program
    respelt = '\n'.join(s.to_excellon(FileSettings(units=u, format=fmt, zero_suppression={'L': 'leading', 'T': 'trailing'}[z]))
                        for s, (_, (u, fmt, z)) in zip(f.statements, want)
                        if type(s).__name__ not in ('RouteModeStmt', 'LinearModeStmt')) + '\n'
    g = P11.load(cmds, respelt)
    differ('statements written and read again\n%s' % respelt, [after(s, 1.0, 0.0, 0.0, None) for s, _ in want],
           [observed(s) for s in g.statements], text)
    differ('holes of the statements written and read again\n%s' % respelt, E.file_hits(f), E.file_hits(g), text)
    if not ops:
        parser(cmds, text, f)
    k, dx, dy, units = 1.0, 0.0, 0.0, d.units
    if 'offset' in ops and (['ICI', 'ON'] in cmds or ['G91'] in cmds):
        ops = [o for o in ops if o != 'offset']
    for op in ops:
        m = {('inch', 'metric'): 1 / 25.4, ('metric', 'inch'): 25.4}.get((op, units), 1.0)
        if op == 'offset':
            f.offset(0.5, -0.25)
            dx, dy = dx + 0.5, dy - 0.25
        else:
            getattr(f, 'to_' + op)()
            k, dx, dy, units = k * m, dx * m, dy * m, op
        differ('statements after %s' % ops, [after(s, k, dx, dy, units if units != d.units or k != 1.0 else None) for s, _ in want],
               [observed(s) for s in f.statements], text)
    if not ops and E.declares_all(cmds):
        path = ctx.scratch + '/out.drl'
        f.write(path)
        g = excellon.read(path)
        start = ('ToolSelection', 'NextToolSelection', 'Coordinate', 'RepeatHole', 'Slot', 'RouteMode', 'LinearMode',
                 'ZAxisRoutPosition', 'EndOfProgram')
        kept = []
        for s in f.statements:
            s = observed(s)
            if s[0] in start:
                break
            if s[0] in ('Comment', 'Unknown', 'Version', 'Format', 'Unit', 'MeasuringMode', 'ZAxisInfeedRate'):
                kept.append(s)
        got = [observed(s) for s in g.statements]
        got = [s for s in got if s[0] in ('Comment', 'Unknown', 'Version', 'Format', 'Unit', 'MeasuringMode', 'ZAxisInfeedRate')]
        differ('commands of the header after rewriting', kept, got, text)
    return repr([s for s, _ in want])
