"""P28: tools from tool tables and comments have the size, plating and units the table states, in every file using them."""
from itertools import permutations, product

from mc import emodel as E
from mc import espace as S
from mc import gmodel as G
from mc.core import Violation

PID = 'P28'
LEVEL = 'model_checking'
RULE = ('(a) every row form x tool number x size x plating mark x units of the caller: the parsed table; (b) every way '
        'of distributing the definitions of two tools over header, comments, table and nowhere: the tools of the '
        'holes; (c) every history of reading two files with one shared table, converting and drilling them: the table '
        'and the other file do not change; (d) drill parameter files; (e) tables of n tools and every '
        'tool number; (f) every order of plating statements, comments, tables and header definitions of a tool; outcome = tools seen')
BOUNDS = {'quick': '(a) 5 row forms x 6 numbers x 7 sizes x 3 marks x 2 units; (b) 6 sources squared x 2 units x 2 '
                   'styles x 2 settings units; (c) histories <= 4 over 6 events; (d) all 2x2x36; (e) 1..99; (f) all '
                   'permutations of subsets of 5 lines',
          'thorough': '(a) also with neighbouring rows; (c) histories <= 6'}
ASSUMPTIONS = ('a table is read with the units of the files that will use it', 'sizes in mils or mm as marked', 'a tool has its plating from the TYPE '
               'statement before it, or else its comment, or else the table; a comment after the definition of a tool which a '
               'table states, too, is not considered')
MARKS = {'PLATED': 'plated', 'NON_PLATED': 'nonplated', 'OPTIONAL': 'optional'}
FORMS = ('mils', 'mils2', 'mm', 'mm2', 'table')
SIZES = ('8', '10.0', '0.254', '15.748031', '40', '125.5', '3.175')
EVENTS = ('readA', 'readB', 'inchA', 'metricA', 'offsetB', 'metricB')


def row(form, n, size, mark):
    if form == 'mils':
        return 'Holesize %d. = %s Tolerance = +0.000/-0.000 %s MILS Quantity = 12' % (n, size, mark)
    if form == 'mm':
        return 'Holesize %d. = %s Tolerance = +1.000/-2.000 %s MM Quantity = 12' % (n, size, mark)
    if form == 'mils2':
        return 'T%02d Holesize %d. = %s Tolerance = +0.1/-0.1 %s MILS Quantity = 7' % (n, n, size, mark)
    if form == 'mm2':
        return 'T%02d Holesize %d. = %s Tolerance = +0.0/-0.0 %s MM Quantity = 1' % (n, n, size, mark)
    return '%s  %s  T%02d  0.000  0.000' % (size, {'PLATED': 'P', 'NON_PLATED': 'N', 'OPTIONAL': 'P'}[mark], n)


def diameter(form, size, units):
    v = float(size)
    if form in ('mm', 'mm2'):
        return v if units == 'metric' else v / 25.4
    return v * 0.0254 if units == 'metric' else v / 1000.


def mark_of(form, mark):
    return MARKS['PLATED' if form == 'table' and mark == 'OPTIONAL' else mark]


SOURCES = ('header', 'comment', 'table', 'header+table', 'header+comment', 'comment+table')


# lines about the plating of T1
PLATING = {'tool': 'T01C0.0400', 'yes': ';TYPE=PLATED', 'no': '; #@! TYPE=NON_PLATED', 'comment': ';   ' + row('mils', 1, '40', 'OPTIONAL'),
           'comment2': '; ' + row('mils2', 1, '40', 'NON_PLATED')}


def plating(order, table):
    state, comment, tool = None, None, 'undefined'
    for o in order:
        if o in ('yes', 'no'):
            state = {'yes': 'plated', 'no': 'nonplated'}[o]
        elif o == 'tool':
            tool = state or comment or (MARKS['PLATED'] if table else None)
        else:
            # the latest comment counts until the tool is defined, the first one after it
            comment = MARKS['OPTIONAL' if o == 'comment' else 'NON_PLATED']
            if tool is None:
                tool = comment
    return tool


def cases(tier):
    quick = tier == 'quick'
    for form in FORMS:
        for n in (1, 2, 3, 9, 10, 24):
            for size in SIZES:
                for mark in sorted(MARKS):
                    for u in ('inch', 'metric'):
                        yield ['row', form, n, size, mark, u, 0]
                        if not quick:
                            for other in range(1, 6):
                                yield ['row', form, n, size, mark, u, other]
        for n in range(1, 100):
            yield ['row', form, n, SIZES[n % 7], sorted(MARKS)[n % 3], ('inch', 'metric')[n % 2], 0]
            yield ['rows', form, n, ('inch', 'metric')[n % 2]]
    for n in range(1, 100):
        yield ['report', 'x-?'[n % 3], n, '%d.%03d' % (n % 7, n), n * 10, 100 - n, n * n]
    for n in range(1, 6):
        for order in permutations(sorted(PLATING), n):
            if 'tool' in order:
                rest = order[order.index('tool') + 1:]
                for t in (0, 1) if not ('comment' in rest or 'comment2' in rest) else (0,):
                    yield ['plating', list(order), t]
    for a, b in product(SOURCES, repeat=2):
        for u in ('INCH', 'METRIC'):
            for form in FORMS[:4]:
                for late in (0, 1):
                    yield ['mix', a, b, u, form, late]
    for n in range(1, 5 if quick else 7):
        for hist in product(EVENTS, repeat=n):
            yield ['share', list(hist)]
    for coords in ('ABSOLUTE', 'INCREMENTAL'):
        for units in ('ENGLISH', 'METRIC'):
            for a in range(1, 7):
                for b in range(1, 7):
                    yield ['params', coords, units, a, b]
    for x, n, size, fr, sp, qty in product('x-?', (1, 12), ('0.5', '1.27'), (100,), (80, 5), (3,)):
        yield ['report', x, n, size, fr, sp, qty]


def run(case, ctx):
    from gerber import excellon, excellon_tool, excellon_settings
    from gerber.cam import FileSettings
    kind = case[0]
    if kind == 'row':
        _, form, n, size, mark, u, other = case
        rows = [row(form, n, size, mark)]
        if other:
            rows.insert(other % 2, row(FORMS[other - 1], n + 1, '20', 'PLATED'))
            rows.insert(other % 3, '')
            rows.append('Total 3 tools')
        t = excellon_tool.loads('\n'.join(rows) + '\n', FileSettings(units=u))
        ctx.trace()
        if sorted(t) != ([n, n + 1] if other else [n]):
            raise Violation('tools of the table', n, sorted(t))
        got = (t[n].number, t[n].plated)
        if got != (n, mark_of(form, mark)) or not G.same(t[n].diameter, diameter(form, size, u), 1e-6):
            raise Violation('tool of row %r read in %s' % (rows, u), (n, diameter(form, size, u), mark_of(form, mark)),
                            (got, t[n].diameter))
        ctx.state((form, size, mark, u))
        return repr((got, round(t[n].diameter, 9)))
    if kind == 'rows':
        _, form, n, u = case
        rows = [row(form, m, SIZES[m % 7], sorted(MARKS)[m % 3]) for m in range(1, n + 1)]
        t = excellon_tool.loads('\n'.join(rows) + '\n', FileSettings(units=u))
        ctx.trace()
        if sorted(t) != list(range(1, n + 1)):
            raise Violation('tools of a table of %d' % n, n, sorted(t))
        for m in t:
            got, want = t[m].diameter, diameter(form, SIZES[m % 7], u)
            if t[m].number != m or t[m].plated != mark_of(form, sorted(MARKS)[m % 3]) or not G.same(got, want, 1e-6):
                raise Violation('tool %d of a table of %d' % (m, n), (want, mark_of(form, sorted(MARKS)[m % 3])), (got, t[m].plated))
        # a file that uses all of them
        text = 'M48\n%s,TZ\n%%\n' % {'inch': 'INCH', 'metric': 'METRIC'}[u] + ''.join(
            'T%02d\nX%d0000Y0\n' % (m, m % 9) for m in sorted(t)) + 'M30\n'
        f = excellon.loads(text, settings=FileSettings(units=u, format=(2, 4), zeros='trailing'), tools=t)
        got = [(h.tool.number, h.tool.diameter, h.tool.plated) for h in f.hits]
        want = [(m, t[m].diameter, t[m].plated) for m in sorted(t)]
        if got != want:
            raise Violation('tools of the holes\n' + text, want, got)
        return repr(want)
    if kind == 'plating':
        _, order, table = case
        text = 'M48\nINCH,TZ\n%s\n%%\nT01\nX10000Y10000\nM30\n' % '\n'.join(PLATING[o] for o in order)
        t = excellon_tool.loads(row('mils', 1, '40', 'PLATED') + '\n', FileSettings(units='inch')) if table else None
        f = excellon.loads(text, settings=FileSettings(units='inch', format=(2, 4), zeros='trailing'), tools=t)
        ctx.trace()
        want, got = plating(order, table), [h.tool.plated for h in f.hits]
        ctx.transition((tuple(order), table), 'read', want)
        if got != [want] or len(f.tools) != 1 or not G.same(f.tools[1].diameter, 0.04):
            raise Violation('plating of the tool of\n%s%s' % (text, '\nwith a table that says plated' if table else ''), want, got)
        return repr(got)
    if kind == 'params':
        _, coords, units, a, b = case
        s = excellon_settings.loads('# comment\nCOORDINATES %s\nOUTPUT-UNITS %s\nINTEGER-PLACES %d\nDECIMAL-PLACES %d\n'
                                    'TOOL-ORDER INCREASING\n' % (coords, units, a, b))
        ctx.trace()
        got = (s.notation, s.units, tuple(s.format))
        want = (coords.lower(), 'inch' if units == 'ENGLISH' else 'metric', (a, b))
        if got != want:
            raise Violation('drill parameter file', want, got)
        ctx.state(want)
        return repr(got)
    if kind == 'report':
        _, x, n, size, fr, sp, qty = case
        t = excellon_tool.loads_rep('Tool list\n9 9 x 9 9 9\n==== ==== ==== ==== ===== ===\n%d %s %s %d %d %d\n==== \n'
                                    % (n, size, x, fr, sp, qty))
        ctx.trace()
        got = sorted((a, b.number, b.diameter, b.plated, b.feed_rate, b.rpm) for a, b in t.items())
        want = [(n, n, float(size), {'x': 'plated', '-': 'nonplated'}.get(x), fr, sp)]
        if got != want:
            raise Violation('tool report', want, got)
        return repr(got)
    if kind == 'mix':
        _, a, b, u, form, late = case
        units = 'inch' if u == 'INCH' else 'metric'
        unit = ['u', u, 'TZ', None]
        size = {1: '8', 2: '40'}
        mark = {1: 'PLATED', 2: 'NON_PLATED'}
        head = [['M48'], ['FF', 3, 3]]
        comments = [[';', ('' if '2' in form else '   ') + row(form, n, size[n], mark[n])]
                    for n, s in ((1, a), (2, b)) if 'comment' in s]
        if '2' in form:
            comments = [[';', c[1]] for c in comments]
        head += (comments + [unit]) if late else ([unit] + comments)
        head += [['T', n, S.TOOLS[n]] for n, s in ((1, a), (2, b)) if 'header' in s] + [['%']]
        cmds = head + [['t', 1], ['xy', 0, 0], ['t', 2], ['xy', 4, 4], ['t', 1], ['xy', 8, 8], ['M30']]
        text = E.render(cmds)
        rows = [row('mm', n, '2', 'OPTIONAL') for n, s in ((1, a), (2, b)) if 'table' in s]
        table = excellon_tool.loads('\n'.join(rows) + '\n', FileSettings(units=units))
        f = excellon.loads(text, settings=FileSettings(units=units, format=(3, 3), zeros='trailing'), tools=table)
        ctx.trace()
        for n, s in ((1, a), (2, b)):
            # the header wins, then comments, then the table; plating is filled in from whichever states it
            if 'header' in s:
                dia = float(E.TQ * S.TOOLS[n])
                plated = MARKS[mark[n]] if 'comment' in s else None
            elif 'comment' in s:
                dia, plated = diameter(form, size[n], units), MARKS[mark[n]]
            else:
                dia, plated = diameter('mm', '2', units), 'optional'
            got = [h.tool.diameter for h in f.hits if h.tool.number == n]
            if not G.same(got, [dia] * (2 if n == 1 else 1), 1e-6):
                raise Violation('size of tool %d (%s)\n%s\ntable: %s' % (n, s, text, rows), dia, got)
            t = f.tools[n]
            if any(h.tool is not t for h in f.hits if h.tool.number == n) or t.hit_count != (2 if n == 1 else 1) or \
                    t.settings.units != units:
                raise Violation('tool %d (%s) of the holes\n%s' % (n, s, text), None, str(t))
            if s not in ('header', 'header+table') and t.plated != plated:
                raise Violation('plating of tool %d (%s)\n%s' % (n, s, text), plated, t.plated)
            if s == 'header+table' and t.plated != 'optional':
                raise Violation('plating of tool %d (%s)\n%s' % (n, s, text), 'optional', t.plated)
        ctx.state((a, b, u, form, late))
        return repr([(n, round(t.diameter, 6), t.plated) for n, t in sorted(f.tools.items())])
    # shared table
    table = excellon_tool.loads('\n'.join([row('mils', 1, '40', 'PLATED'), row('mm', 2, '2', 'NON_PLATED')]) + '\n',
                                FileSettings(units='inch'))

    def snap(t):
        return sorted((n, x.diameter, x.plated, x.hit_count, x.number) for n, x in t.items())
    start = snap(table)
    files = {}
    model = {}
    done = []
    texts = {'A': 'M48\nINCH,TZ\n%\nT01\nX10000Y10000\nX20000Y10000\nT02\nX0Y0\nM30\n',
             'B': 'M48\nINCH,TZ\nT02C0.5\n%\nT01\nX10000Y0\nT02\nX10000Y10000\nM30\n'}
    base = {'A': ([(1, 0.04, (1., 1.)), (1, 0.04, (2., 1.)), (2, 2 / 25.4, (0., 0.))], {1: 2, 2: 1}),
            'B': ([(1, 0.04, (1., 0.)), (2, 0.5, (1., 1.))], {1: 1, 2: 1})}
    for e in case[1]:
        which, op = e[-1], e[:-1]
        src = repr(sorted(model.items()))
        if op == 'read':
            files[which] = excellon.loads(texts[which], settings=FileSettings(units='inch', format=(2, 4),
                                                                              zeros='trailing'), tools=table)
            model[which] = (1.0, 0.0)
        elif which in files:
            k, dx = model[which]
            f = files[which]
            if op == 'offset':
                f.offset(1.0, 0)
                model[which] = (k, dx + 1.0)
            else:
                target = 25.4 if op == 'metric' else 1.0
                getattr(f, 'to_' + op)()
                model[which] = (target, dx * target / k)
        done.append(e)
        ctx.transition(src, e, repr(sorted(model.items())))
        if snap(table) != start:
            raise Violation('the table changed after %s' % done, start, snap(table))
        for w, f in files.items():
            k, dx = model[w]
            want = [(n, d * k, (x * k + dx, y * k)) for n, d, (x, y) in base[w][0]]
            got = [(h.tool.number, h.tool.diameter, tuple(h.position)) for h in f.hits]
            if not G.same(want, got, 1e-6) or f.hit_count() != base[w][1]:
                raise Violation('file %s after %s' % (w, done), (want, base[w][1]), (got, f.hit_count()))
    ctx.trace()
    return repr(sorted(model.items()))
