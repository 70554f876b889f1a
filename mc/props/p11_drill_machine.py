"""P11: an Excellon program drills exactly the holes and slots its modal state machine defines."""
from itertools import product

from mc import emodel as E
from mc import espace as S
from mc import gmodel as G
from mc.core import Violation

PID = 'P11'
LEVEL = 'model_checking'
RULE = ('(a) breadth-first closure of the reference machine (position, tool, drilling/routing mode, depth, notation): '
        'every transition out of every reachable state is replayed on the real parser after its shortest command '
        'trace, followed by a probe; (b) every command sequence up to a fixed depth without state merging; (c) every '
        'combination of header form, program pieces and layout; (d) documents of n '
        'tools, holes, slots, routed segments or repeats, or with coordinates at the ends of the number range; (e) programs whose body begins within the header; outcome = the list of holes and slots')
BOUNDS = {'quick': '(a) 2x2 grid, 2 tools; (b) depth 2 after 4 prefixes; (c) 17 headers x 19 pieces x 11 layouts, '
                   'ordered pairs of pieces; (d) 9 kinds x 21 numbers up to 99 x 3 headers; (e) sequences of <= 3 of 6 pieces',
          'thorough': '(a) 3x3 grid, 2 tools, 3 headers; (b) depth 3 after 4 prefixes; (c) ordered triples of pieces; '
                      '(d) 9 kinds x 1..99 x 8 headers; (e) <= 4'}
ASSUMPTIONS = ('units and format are declared before the tools and the tools before the body',
               'no tool change and no rapid move while the routing tool is down; straight routing only; repeats and '
               'G85 in drill mode; G85 in absolute notation',
               'where the file does not state its number format the caller passes it')
PREFIXES = {'none': [], 'drilled': [['t', 1], ['xy', 4, 0]], 'routing': [['t', 1], ['G00', 0, 4], ['M15']],
            'inc': [['t', 2], ['ICI', 'ON'], ['xy', 4, 4]]}


def cases(tier):
    quick = tier == 'quick'
    names = sorted(S.PIECES)
    for n in range(0, 2):
        for combo in product(names, repeat=n):
            for h in sorted(S.HEADS):
                for st in sorted(S.STYLES):
                    yield ['doc', h, list(combo), st]
    for n in (2,) if quick else (2, 3):
        for combo in product(names, repeat=n):
            for h in ('inTZ24', 'mmLZ33'):
                for st in ('plain', 'mixed') if n == 2 else ('plain',):
                    yield ['doc', h, list(combo), st]
    for h in sorted(S.HEADS):
        for n in range(1, 4 if quick else 5):
            for combo in product(sorted(S.OPEN), repeat=n):
                yield ['open', h, list(combo), 'plain' if n > 1 else 'short']
    for kind, h, n in S.longs(quick):
        for st in ('plain', 'short'):
            yield ['long', kind, h, n, st]
    for h in ('inTZ24', 'mmLZ33', 'inLZ26', 'mmLZ42') if quick else sorted(S.HEADS):
        for n in range(1, 40):
            for st in ('decimal', 'mixed'):
                yield ['long', 'fine', h, n, st]
    menu = S.Menu(1)
    for depth in range(0, 3 if quick else 4):
        for p in sorted(PREFIXES):
            if depth == 3 and p == 'drilled':
                continue
            d = E.interpret(S.head('inTZ24') + PREFIXES[p])
            for seq in S.sequences(menu, d, depth):
                yield ['seq', 'inTZ24', p, seq]
    menu = S.Menu(1) if quick else S.Menu(2)
    for h in ('mmLZ33',) if quick else ('mmLZ33', 'inTZ24', 'inTZff'):
        for idx, (canon, trace, d) in enumerate(S.closure(menu, S.head(h))):
            for n in range(len(menu.events(d))):
                yield ['step', h, menu.box, idx, n]


def program(case, ctx=None):
    if case[0] == 'doc':
        return S.document(case[1], case[2]), S.STYLES[case[3]]
    if case[0] == 'open':
        return S.open_document(*case[1:3]), S.STYLES[case[3]]
    if case[0] == 'long':
        return S.long_document(*case[1:4]), S.STYLES[case[4]]
    if case[0] == 'seq':
        return S.head(case[1]) + PREFIXES[case[2]] + case[3] + [['M30']], None
    _, h, box, idx, n = case
    menu = S.Menu(box)
    canon, trace, d = S.closure(menu, S.head(h))[idx]
    ev = menu.events(d)[n]
    nxt = d.clone()
    nxt.apply(ev)
    if ctx is not None:
        ctx.transition((h, canon), ev, (h, nxt.canon()))
    return S.head(h) + trace + [ev] + menu.probe(nxt) + [['M30']], None


def load(cmds, text):
    from gerber import excellon
    from gerber.cam import FileSettings
    if E.declares_all(cmds):
        return excellon.loads(text)
    return excellon.loads(text, settings=E.settings_of(cmds, FileSettings))


def run(case, ctx):
    cmds, style = program(case, ctx)
    text = E.render(cmds, style)
    d = E.interpret(cmds)
    f = load(cmds, text)
    ctx.trace()
    exp, got = E.model_hits(d), E.file_hits(f)
    if not G.same(exp, got):
        raise Violation('wrong holes: %s\nprogram:\n%s' % (G.first_difference(exp, got), text), G.show(exp), G.show(got))
    exp, got = E.model_tools(d), E.tool_list(f)
    if not G.same(exp, got):
        raise Violation('wrong tools\nprogram:\n%s' % text, G.show(exp), G.show(got))
    if f.units != d.units or f.settings.units != d.units:
        raise Violation('units', d.units, f.units)
    zs = 'leading' if d.zeros == 'L' else 'trailing'
    if tuple(f.settings.format) != d.fmt or (f.settings.zero_suppression != zs):
        raise Violation('number format\nprogram:\n%s' % text, (d.fmt, zs),
                        (f.settings.format, f.settings.zero_suppression))
    if f.settings.notation != ('absolute' if d.notation == 'abs' else 'incremental'):
        raise Violation('notation', d.notation, f.settings.notation)
    # the drawable objects, in order, in the file's units
    prims = f.primitives
    want = [(('Drill', h[2], h[3]) if h[0] == 'hole' else ('Slot', h[2], h[3], h[4])) for h in E.model_hits(d)]
    have = [(('Drill', p.diameter, tuple(p.position)) if type(p).__name__ == 'Drill' else
             ('Slot', p.diameter, tuple(p.start), tuple(p.end))) for p in prims]
    if not G.same(want, have) or any(p.units != d.units for p in prims):
        raise Violation('wrong primitives\nprogram:\n%s' % text, G.show(want), G.show(have))
    return G.show(E.model_hits(d))
