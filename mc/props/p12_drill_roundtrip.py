"""P12: writing a drill file and reading it back preserves holes, slots, tools and number format."""
from itertools import product

from mc import emodel as E
from mc import espace as S
from mc import gmodel as G
from mc.core import Violation
from mc.props import p11_drill_machine as P11

PID = 'P12'
LEVEL = 'model_checking'
RULE = ('(a) every transition of the closed drilling machine, the program read, written and read back; (b) every '
        'combination of header form, pieces and layout; (c) every combination of tool parameters in every format; '
        '(d) the long documents of P11; '
        'outcome = the rewritten text')
BOUNDS = {'quick': '(a) 2x2 grid; (b) 17 headers x 19 pieces x 11 layouts and ordered pairs; (c) 2^6 parameter '
                   'subsets x 3 values x 4 headers',
          'thorough': '(a) 3x3 grid, 2 headers; (b) ordered triples of pieces; (c) as quick, 7 headers'}
ASSUMPTIONS = ('as P11; hole coordinates and diameters are representable in the number format of the file',
               'files which do not state their number format are re-read with the settings of the first reading')
PARAMS = {'F': ['', '1', '2.5', '0', '0.0'], 'S': ['', '3', '65.', '300.', '120.5', '0'], 'B': ['', '1', '0.5', '0.0'],
          'H': ['', '4', '2000.', '0', '0.0'], 'Z': ['', '0.25', '-0.5', '0.0']}
ATTR = {'F': ('feed_rate', 1), 'S': ('rpm', 1000), 'B': ('retract_rate', 1), 'H': ('max_hit_count', 1),
        'Z': ('depth_offset', 1)}


def cases(tier):
    quick = tier == 'quick'
    for c in P11.cases(tier):
        if c[0] in ('doc', 'open') or c[0] == 'long' and c[4] == 'plain' and c[1] != 'fine' or (c[0] == 'step' and (quick or c[1] != 'inTZff')):
            yield c
    for h in ('inTZ24', 'mmLZ33', 'inTZff', 'mmLZ42') if quick else sorted(S.HEADS):
        for combo in product(*[sorted(PARAMS[k]) for k in 'FSBHZ']):
            yield ['tool', h, list(combo)]


def attrs(t):
    return (t.number, t.diameter, t.feed_rate, t.retract_rate, t.rpm, t.max_hit_count, t.depth_offset, t.hit_count)


def run(case, ctx):
    from gerber import excellon
    params = {}
    if case[0] == 'tool':
        h = case[1]
        line = 'T01C0.5' + ''.join(k + v for k, v in zip('FSBHZ', case[2]) if v)
        params = {ATTR[k][0]: float(v) * ATTR[k][1] for k, v in zip('FSBHZ', case[2]) if v and '.' in v}
        absent = [ATTR[k][0] for k, v in zip('FSBHZ', case[2]) if not v]
        cmds = S.HEADS[h] + [['T', 2, 32], ['T', 1, 16], [S.END.get(h, ['%'])][0], ['t', 1], ['xy', 4, 4], ['M30']]
        text = E.render(cmds).replace('T01C0.5\n', line + '\n')
        assert line in text
    else:
        cmds, style = P11.program(case, ctx)
        text = E.render(cmds, style)
    d = E.interpret(cmds)
    f = P11.load(cmds, text)
    for a, v in params.items():
        if not G.same(getattr(f.tools[1], a), v):
            raise Violation('%s of %s' % (a, line), v, getattr(f.tools[1], a))
    if case[0] == 'tool':
        for a in absent:
            if getattr(f.tools[1], a) is not None:
                raise Violation('%s of %s' % (a, line), None, getattr(f.tools[1], a))
    path = ctx.scratch + '/out.drl'

    def write(f):
        f.write(path)
        with open(path) as fh:
            return fh.read()
    before = (E.file_hits(f), E.tool_list(f))
    out = write(f)
    if (E.file_hits(f), E.tool_list(f)) != before:
        raise Violation('writing changed the file object', before, (E.file_hits(f), E.tool_list(f)))
    f2 = excellon.read(path) if E.declares_all(cmds) else excellon.loads(out, settings=f.settings)
    ctx.trace()
    exp, got = E.by_tool(E.model_hits(d), d.order), E.file_hits(f2)
    if not G.same(exp, got):
        raise Violation('wrong holes after rewriting: %s\nprogram:\n%s\nrewritten:\n%s'
                        % (G.first_difference(exp, got), text, out), G.show(exp), G.show(got))
    exp, got = [attrs(t) for t in f.tools.values()], [attrs(t) for t in f2.tools.values()]
    if not G.same(exp, got, 1e-9, 1e-9):
        raise Violation('tools after rewriting\nprogram:\n%s\nrewritten:\n%s' % (text, out), exp, got)
    s, s2 = f.settings, f2.settings
    for a in ('units', 'format', 'zero_suppression'):
        if getattr(s, a) != getattr(s2, a):
            raise Violation('%s after rewriting\nprogram:\n%s\nrewritten:\n%s' % (a, text, out), getattr(s, a),
                            getattr(s2, a))
    out2 = write(f2)
    if out2 != out:
        raise Violation('writing is not stable after one round trip', out, out2)
    if not E.declares_all(cmds):
        return out
    # rewriting does not depend on where the file goes or came from
    f2.filename = path + '.2'
    f2.write()
    with open(path + '.2') as fh:
        if fh.read() != out:
            raise Violation('write() without a file name', out)
    return out
