"""P19: every entry point reads a file as the format its content shows."""
import os
from itertools import product

from mc import emodel as E
from mc import espace as S
from mc import gdocs as D
from mc import gmodel as G
from mc.core import Violation

PID = 'P19'
LEVEL = 'exploration'
RULE = ('(a) every body of each format x every prologue of its format (comments and headers that mention the other formats) '
        'x line ends x file name; the detected format, and the file through each of 12 entry points, against the model; '
        'each body without its tell-tale line is refused; (b) every list of up to a fixed number of lines, from a catalogue of tell-tale lines, decoys and neutral lines: '
        'the detected format is that of the first tell-tale line, and content without one is refused by every entry point; '
        '(c) the tell-tale line after n other lines, of any length; '
        'outcome = what was read')
BOUNDS = {'quick': '(a) 12 bodies x 5..9 prologues x 7 line ends x 4 names; (b) 17 lines, lists <= 3; (c) 28 numbers up to 5000',
          'thorough': '(a) 30 bodies x the same x 12 names; (b) lists <= 4'}
ASSUMPTIONS = ('comments do not contain %FS', 'the text of a file is valid in the encoding of the locale')
NAMES = ['board.gbr', 'board.drl', 'board.ipc', 'noextension', 'top.GTL', 'a b.txt', 'x.d356', 'M48', 'drill.ncd', '%FS.gbr',
         'P  JOB.net', 'board.exc']
EOLS = {'lf': '\n', 'crlf': '\r\n', 'cr': '\r', 'lflf': '\n\n', 'noend': None, 'joined': '\n', 'blank': '\n'}
GBR = [('in', []), ('mm', ['line', 'flash']), ('in', ['region', 'clear']), ('in', ['arcm', 'arcs']), ('mm', ['regarc']),
       ('in', ['flash', 'clearline', 'circ']), ('mm', ['line', 'region', 'arcm']), ('in', ['line']), ('mm', ['arcs', 'clear']),
       ('in', ['regarc', 'region'])]
EXC = [('inTZ24', ['holes']), ('mmTZ33', ['g85', 'holes2']), ('bare', ['repeat']), ('inLZ24', ['rout', 'inc']),
       ('mmLZ33', ['rout2', 'holes']), ('inTZfm', ['holes', 'next']), ('mmTZfm', ['endtool', 'holes']),
       ('M95', ['holes', 'zero']), ('inTZff', ['routg85', 'g85rout']), ('inTZ24', ['rout3', 'holes2'])]
IPC = [('CUST 0', 0), ('CUST 1', 3), ('CUST 2', 1), (None, 2), ('CUST 0', 3), ('CUST 1', 1), ('CUST 1', 0), ('CUST', 3),
       (None, 1), ('CUST 2', 2)]
PRO = {
    'rs274x': [[], ['G04 plain comment*'], ['G04 M48 in a comment*'], ['G04 made for STM48T6*', 'G04 P JOB*'], ['', ''],
               ['G75*', 'G04 P  JOB M48*'], ['%TF.Part,STM48F0*%'], ['%LNM48*%', 'G04*'], ['%INP JOB*%']],
    'excellon': [[], ['%'], ['; a comment'], ['', '; P  JOB'], [';P JOB is no netlist', '%']],
    'ipc_d_356': [[], ['C  a comment'], ['C  drilled with M48 files', 'C'], ['C  STM48F0', ''], ['P  CODE 00', 'C  M48'],
                  ['P  TITLE M48'], ['', 'C  P JOB', 'P  VER IPC-D-356A']],
}
JOBS = ['board', 'STM48_BOARD', 'M48']
RECS = [('GND', 'VIA', None, 0, 0, -5), ('VCC', 'C2', '2', 1, -100, 200), ('N/C', 'R1', '1', 0, 100, 200)]
# (b): text of the line, format it shows
LINES = [('M48', 'excellon'), ('  M48', 'excellon'), ('%FSLAX24Y24*%', 'rs274x'), ('%FSTIX33Y33*%', 'rs274x'),
         ('%MOIN*FSLAX24Y24*%', 'rs274x'), ('% FSLAX24Y24*%', 'rs274x'), ('P  JOB board', 'ipc_d_356'),
         ('P JOB', 'ipc_d_356'), ('', None), ('G04 STM48*', None), ('C  M48', None), ('%MOIN*%', None), ('P  CODE 00', None),
         ('T01C0.02', None), ('G04 x*%FSLAX24Y24*%', 'rs274x'), ('   %FSLAX24Y24*%', 'rs274x'), ('*%MOMM*%%FSTIX33Y33*%', 'rs274x')]


LATE = (1, 2, 3, 5, 8, 9, 10, 11, 15, 16, 19, 20, 21, 25, 32, 49, 50, 51, 64, 99, 100, 101, 128, 200, 256, 500, 1000, 5000)


def cases(tier):
    quick = tier == 'quick'
    n = 4 if quick else 10
    for fmt, bodies in (('rs274x', GBR), ('excellon', EXC), ('ipc_d_356', IPC)):
        for k in range(n):
            for pro, eol in product(range(len(PRO[fmt])), sorted(EOLS)):
                for name in NAMES[:4] if quick else NAMES:
                    yield ['doc', fmt, k, pro, eol, name]
    for fmt in sorted(PRO):
        for k, pro, eol in product(range(n), range(len(PRO[fmt])), ('lf', 'crlf', 'cr')):
            yield ['cut', fmt, k, pro, eol]
    for fmt in sorted(PRO):
        for n in LATE:
            for k, eol in ((0, 'lf'), (1, 'crlf')):
                yield ['late', fmt, n, k, eol]
    for k in range(4 if quick else 5):
        for lines in product(range(len(LINES)), repeat=k):
            yield ['lines', list(lines), 'cr' if k == 2 and lines[0] % 2 else 'lf']


def document(fmt, k):
    """(lines, what the model reads)"""
    if fmt == 'rs274x':
        h, pieces = GBR[k]
        prog = D.head(*({'in': ('IN', (2, 4), 'L'), 'mm': ('MM', (3, 3), 'T')}[h] + (['c', 'r', 'TRI'],)))
        # split the header into lines of its own
        for n, p in enumerate(pieces):
            prog = prog + [['D', 10 + n % 2 if p[0] in 'la' else 10]] + D.PIECES[p]
        g = D.build(prog)
        units = {'in': 'inch', 'mm': 'metric'}[h]
        return D.text_of(prog).rstrip('\n').split('\n'), (units, g.out)
    if fmt == 'excellon':
        cmds = S.document(*EXC[k])
        d = E.interpret(cmds)
        return E.render(cmds).rstrip('\n').split('\n'), (d.units, E.model_hits(d))
    u, job = IPC[k]
    lines = ['P  JOB %s' % JOBS[job % 3]] + (['P  UNITS %s' % u] if u else [])
    from mc.props import p16_netlist as N
    recs = RECS[:job % 4 + 1]
    lines += [N.line_text(('rec',) + r) for r in recs] + ['999']
    units = 'metric' if u == 'CUST 1' else 'inch'
    q = 0.001 if units == 'metric' else 0.0001
    return lines, (units, [(r[0], r[1], (r[4] * q, r[5] * q)) for r in recs])


def canon(fmt, f):
    """what a file holds"""
    cls = type(f).__name__
    want = {'rs274x': 'GerberFile', 'excellon': 'ExcellonFile', 'ipc_d_356': 'IPCNetlist'}[fmt]
    if cls != want:
        raise Violation('class of the file', want, cls)
    if fmt == 'rs274x':
        return f.units, G.canon_file(f)
    if fmt == 'excellon':
        return f.units, E.file_hits(f)
    return f.units, [(r.net_name, r.id, (r.x_coord, r.y_coord)) for r in f.test_records]


def details(fmt, f):
    """everything else that entry points must agree on"""
    out = [type(f).__name__, f.bounds, f.units, len(f.statements)]
    if fmt != 'ipc_d_356':
        out += [f.format, f.zeros, f.zero_suppression, f.notation, f.bounding_box]
    if fmt == 'excellon':
        out += [E.tool_list(f)]
    if fmt == 'rs274x':
        out += [s.to_gerber(f.settings) for s in f.statements]
    if fmt == 'ipc_d_356':
        out += [[str(s) for s in f.statements], [n.name for n in sorted(f.nets, key=lambda n: n.name)], f.angle_units]
    return out


def entries(fmt, path, text):
    """[(entry point, thunk, the name the file should carry)]"""
    import gerber
    from gerber import common, excellon, ipc356, layers, rs274x
    mod = {'rs274x': rs274x, 'excellon': excellon, 'ipc_d_356': ipc356}.get(fmt)
    out = [('gerber.read', lambda: gerber.read(path), path), ('gerber.loads', lambda: gerber.loads(text), None),
           ('common.loads with a name', lambda: common.loads(text, path), path),
           ('common.loads with another name', lambda: common.loads(text, filename='other.xyz'), 'other.xyz'),
           ('load_layer', lambda: layers.load_layer(path).cam_source, path),
           ('load_layer_data', lambda: layers.load_layer_data(text, path).cam_source, path),
           ('load_layer_data without a file', lambda: layers.load_layer_data(text, 'missing.abc').cam_source, 'missing.abc'),
           ('load_layer_data without a name', lambda: layers.load_layer_data(text).cam_source, None)]
    if mod is not None:
        out += [('read of the format', lambda: mod.read(path), path), ('loads of the format', lambda: mod.loads(text), None),
                ('loads of the format with a name', lambda: mod.loads(text, filename=path), path)]
        if fmt == 'rs274x':
            out.append(('GerberParser.parse', lambda: rs274x.GerberParser().parse(path), path))
        if fmt == 'ipc_d_356':
            out.append(('IPCNetlist.from_file', lambda: ipc356.IPCNetlist.from_file(path), path))
    return out


def write(ctx, name, text):
    path = os.path.join(ctx.scratch, name)
    with open(path, 'w', newline='') as f:
        f.write(text)
    return path


def first_tale(lines):
    for n in lines:
        if LINES[n][1]:
            return LINES[n][1]
    return 'unknown'


def refused(text, ctx):
    from gerber.exceptions import ParseError
    path = write(ctx, 'unknown.gbr', text)
    for what, thunk, _ in entries(None, path, text):
        try:
            r = thunk()
        except ParseError:
            ctx.trace()
            continue
        raise Violation('%s of %r, which is of no known format' % (what, text), 'ParseError', r)


def run(case, ctx):
    from gerber.utils import detect_file_format
    if case[0] == 'lines':
        eol = EOLS[case[2]]
        text = eol.join(LINES[n][0] for n in case[1])
        fmt = first_tale(case[1])
        got = detect_file_format(text)
        ctx.trace()
        if got != fmt:
            raise Violation('format of %r' % text, fmt, got)
        if fmt == 'unknown':
            refused(text, ctx)
        return fmt
    if case[0] == 'cut':
        _, fmt, k, pro, eol = case
        lines = [l for l in document(fmt, k)[0] if not any(t in l for t in ('M48', 'FSL', 'FST', 'P  JOB'))]
        text = EOLS[eol].join(PRO[fmt][pro] + lines)
        refused(text, ctx)
        return text
    if case[0] == 'late':
        _, fmt, n, k, eol = case
        name = 'board.xyz'
        mark = {'rs274x': 'G04 %s*', 'excellon': '; %s', 'ipc_d_356': 'C  %s'}[fmt]
        lines, (units, objs) = document(fmt, k)
        # many lines, and one line of the length
        lines = [mark % ('number %d' % m) for m in range(n)] + [mark % ('x' * n)] + lines
    else:
        _, fmt, k, pro, eol, name = case
        lines, (units, objs) = document(fmt, k)
        lines = PRO[fmt][pro] + lines
        if fmt == 'rs274x' and eol in ('joined', 'blank'):
            # the format block is not the first of its line
            k = len(PRO[fmt][pro])
            lines[k] = ('G04 one line*' if eol == 'joined' else '  ') + lines[k]
    text = '\n'.join(lines) if EOLS[eol] is None else EOLS[eol].join(lines + [''])
    got = detect_file_format(text)
    if got != fmt:
        raise Violation('format of\n' + text, fmt, got)
    path = write(ctx, name, text)
    first = None
    for what, thunk, label in entries(fmt, path, text):
        f = thunk()
        ctx.trace()
        c = canon(fmt, f)
        if c[0] != units:
            raise Violation('%s: units of\n%s' % (what, text), units, c[0])
        if fmt == 'rs274x':
            bad = D.compare(D.transform(objs, 1.0, 0.0, 0.0), f)
            if bad:
                raise Violation('%s of\n%s: %s' % (what, text, bad))
        elif not G.same(objs, c[1], 1e-9, 1e-12):
            raise Violation('%s: objects of\n%s' % (what, text), objs, c[1])
        if f.filename != label:
            raise Violation('%s: name of the file' % what, label, f.filename)
        d = details(fmt, f)
        if first is None:
            first = (what, d)
        elif repr(d) != repr(first[1]):
            raise Violation('%s and %s of\n%r' % (first[0], what, text), first[1], d)
    return repr(first[1])
