"""P30: a rendering context keeps valid settings only and is given every object of a file once, in order."""
import os
from itertools import product

from mc import emodel as E
from mc import espace as S
from mc import gdocs as D
from mc.core import Violation

PID = 'P30'
LEVEL = 'model_checking'
RULE = ('model: the record (units, colour, drill colour, background colour, alpha, invert) of a context. (a) closure of the '
        'context over all valid and refused assignments, every transition replayed from a shortest history, for the base '
        'class and both backends; (b) all assignment sequences up to a fixed length; (c) a backend which records its calls: '
        'every document x aperture set, drill program and netlist, rendered with every way of calling, inverted or not; '
        '(d) all sequences of assignments and renderings of files by one context; outcome = settings or calls')
BOUNDS = {'quick': '(a) 96 states x 39 events x 3 classes; (b) length <= 2; (c) 25 apertures and pairs of 9 pieces, 19 drill '
                   'pieces, 12 netlists; (d) length <= 3', 'thorough': '(b) length <= 3; (c) ordered triples of pieces; (d) length <= 4'}
ASSUMPTIONS = ('colours are sequences of numbers',)
KEYS = ('units', 'color', 'drill_color', 'background_color', 'alpha', 'invert')
COLORS = [(0.0, 0.0, 0.0), (1, 0, 0.5), (0.25, 0.5, 0.75)]
LEGAL = dict(units=['inch', 'metric'], color=COLORS[1:], drill_color=[(0.0, 0.0, 0.0), (1.0, 1.0, 1.0)],
             background_color=[(0.0, 0.0, 0.0), (0, 0.125, 1)], alpha=[1.0, 0, 0.5], invert=[False, True])
BAD = [(), (0.5,), (0, 0), (0, 0, 0, 0), (1.01, 0, 0), (0, -0.01, 0), (0, 0, 2), (255, 255, 255)]
ILLEGAL = dict(units=['mm', 'Inch', '', None], color=BAD, drill_color=BAD, background_color=BAD, alpha=[-0.01, 1.01, 255])
EVENTS = [('set', k, v) for k in KEYS for v in LEGAL[k]] + [('bad', k, v) for k in sorted(ILLEGAL) for v in ILLEGAL[k]]
DEFAULT = ('inch', (0.7215, 0.451, 0.200), (0.0, 0.0, 0.0), (0.0, 0.0, 0.0), 1.0, False)
CLASSES = ('base', 'cairo', 'gerber')
DRAW = dict(Line='line', Arc='arc', Region='region', Circle='circle', Rectangle='rectangle', Obround='obround', Polygon='polygon',
            Drill='drill', Slot='slot', AMGroup='amgroup', Outline='region', TestRecord='test_record')
CALLS = ('plain', 'inverted', 'file', 'inverted file', 'positional')
PIECES = sorted(D.PIECES)
FILES = (('gerber', ['c', 'r'], ['flash']), ('gerber', ['c', 'r'], ['dot']), ('gerber', ['TRI', 'DONUT'], ['flash']), ('drill', 'inTZ24', ['holes', 'g85']))


def step(state, e):
    if e[0] == 'bad':
        return state
    s = list(state)
    s[KEYS.index(e[1])] = e[2]
    return tuple(s)


_closed = []


def closure():
    if not _closed:
        traces, todo = {DEFAULT: []}, [DEFAULT]
        for s in todo:
            for e in EVENTS:
                t = step(s, e)
                if t not in traces:
                    traces[t] = traces[s] + [e]
                    todo.append(t)
        _closed.extend((s, traces[s]) for s in todo)
    return _closed


def cases(tier):
    quick = tier == 'quick'
    for i in range(len(closure())):
        for e in range(len(EVENTS)):
            for cls in CLASSES:
                yield ['step', i, e, cls]
    for n in range(3 if quick else 4):
        for seq in product(range(len(EVENTS)), repeat=n):
            yield ['seq', list(seq), CLASSES[sum(seq) % 3]]
    for a in sorted(D.APERTURES):
        for call in CALLS:
            yield ['draw', ['gerber', [a, 'c'], ['APS']], call]
    for n in range(3 if quick else 4):
        for pieces in product(PIECES, repeat=n):
            yield ['draw', ['gerber', ['r', 'c'], list(pieces)], CALLS[sum(map(len, pieces)) % len(CALLS)]]
    for h in sorted(S.HEADS):
        for p in sorted(S.PIECES):
            for call in CALLS[:4]:
                yield ['draw', ['drill', h, [p]], call]
    for n in range(0, 10):
        for layer in ('top', 'bottom', 'both', None):
            for call in ('plain', 'file'):
                yield ['net', n, layer, call]
    menu = [['color', 1], ['color', 2], ['invert', True], ['units', 'metric'], ['alpha', 0.5]] + \
        [['draw', k, c] for k in range(len(FILES)) for c in ('plain', 'inverted')] + [['one', 0]]
    for n in range(4 if quick else 5):
        for seq in product(range(len(menu)), repeat=n):
            if any(menu[k][0] in ('draw', 'one') for k in seq[-1:]):
                yield ['hist', [menu[k] for k in seq]]


def make(cls):
    from gerber.render.render import GerberContext
    if cls == 'base':
        return GerberContext()
    if cls == 'cairo':
        from gerber.render.cairo_backend import GerberCairoContext
        return GerberCairoContext()
    from gerber.cam import FileSettings
    from gerber.render.rs274x_backend import Rs274xContext
    return Rs274xContext(FileSettings())


def assign(c, e, hist):
    try:
        setattr(c, e[1], e[2])
    except (ValueError, TypeError):
        if e[0] == 'set':
            raise
    else:
        if e[0] == 'bad':
            raise Violation('%s = %r was accepted after %r' % (e[1], e[2], hist))


def check(c, s, hist):
    for k, v in zip(KEYS, s):
        if getattr(c, k) != v:
            raise Violation('%s after %r' % (k, hist), v, getattr(c, k))


def recorder():
    from gerber.render.render import GerberContext

    class Recorder(GerberContext):
        def __init__(self):
            GerberContext.__init__(self)
            self.calls = []

        def set_bounds(self, bounds, *args, **kwargs):
            self.calls.append(('bounds', bounds))

        def paint_background(self, *args):
            self.calls.append(('background',))

        def new_render_layer(self, *args, **kw):
            self.calls.append(('layer', self.invert))

        def flatten(self, *args, **kw):
            self.calls.append(('flatten', self.invert))

        def dump(self, filename=None, *args, **kw):
            self.calls.append(('dump', filename))

        def pre_render_primitive(self, p):
            self.calls.append(('pre', p))

        def post_render_primitive(self, p):
            self.calls.append(('post', p))

    def method(name):
        def f(self, p, color, *args):
            self.calls.append((name, p, color, self.invert))
        return f
    for name in set(DRAW.values()):
        setattr(Recorder, '_render_' + name, method(name))
    return Recorder()


def load(spec):
    import gerber
    if spec[0] == 'gerber' and spec[2] == ['dot']:
        return gerber.loads('%FSLAX24Y24*%%MOIN*%%ADD10C,0.5*%\nD10*\nX10000Y0D03*\nM02*\n')
    if spec[0] == 'gerber':
        from mc.props import p04_roundtrip as P04
        return gerber.loads(D.text_of(P04.program(['doc', 'in24L'] + list(spec[1:]) + ['own'])))
    from mc.props import p11_drill_machine as P11
    cmds = S.document(*spec[1:])
    return P11.load(cmds, E.render(cmds))


def same(p, q):
    # the objects of drill files are made anew every time
    return p is q or type(p) is type(q) and [getattr(p, a, None) for a in ('diameter', 'position', 'start', 'end', 'units')] == \
        [getattr(q, a, None) for a in ('diameter', 'position', 'start', 'end', 'units')] and type(p).__name__ in ('Drill', 'Slot')


def check_objects(calls, prims, state, what):
    """calls are exactly before, draw, after of each object in order"""
    body = [c for c in calls if c[0] not in ('bounds', 'background', 'layer', 'flatten', 'dump')]
    want = []
    for p in prims:
        name = DRAW.get(type(p).__name__)
        if name is None:
            raise AssertionError(type(p))
        want += [('pre', p), (name, p), ('post', p)]
    have = [(c[0], c[1]) for c in body]
    if len(want) != len(have) or any(a[0] != b[0] or not same(a[1], b[1]) for a, b in zip(want, have)):
        raise Violation('calls of %s' % what, [(a, type(p).__name__) for a, p in want], [(a, type(p).__name__) for a, p in have])
    for c in body:
        if c[0] in ('pre', 'post'):
            continue
        # the colour of drills may be a colour of their own
        if c[2] != state[1] and not (c[0] in ('drill', 'slot') and c[2] == state[2]):
            raise Violation('colour of %s in %s' % (c[0], what), state[1], c[2])
        if bool(c[3]) != state[5]:
            raise Violation('inversion while drawing %s' % what, state[5], c[3])


def drawn(f, c, call, ctx, state, what):
    """render a file and check every call; the state of the context after it"""
    c.calls = []
    path = os.path.join(ctx.scratch, 'out.png')
    prims = list(f.primitives)
    before = [p.bounding_box for p in prims]
    inv = 'inverted' in call or call == 'positional'
    if call == 'plain':
        f.render(c)
    elif call == 'inverted':
        f.render(ctx=c, invert=True)
    elif call == 'file':
        f.render(c, filename=path)
    elif call == 'inverted file':
        f.render(c, filename=path, invert=True)
    else:
        f.render(c, True, path)
    ctx.trace()
    state = state[:5] + (inv,)
    names = [k[0] for k in c.calls]
    for n in ('bounds', 'background', 'layer', 'flatten'):
        if names.count(n) != 1:
            raise Violation('calls of %s in %s' % (n, what), 1, names.count(n))
    draws = [k for k, n in enumerate(names) if n not in ('bounds', 'background', 'layer', 'flatten', 'dump')]
    if draws and (max(names.index(n) for n in ('bounds', 'background', 'layer')) > draws[0] or names.index('flatten') < draws[-1]):
        raise Violation('order of calls in %s' % what, None, names)
    if names.index('bounds') > names.index('background'):
        raise Violation('the background was painted before the size was known: %s' % what, None, names)
    if c.calls[names.index('bounds')][1] != f.bounding_box:
        raise Violation('bounds of %s' % what, f.bounding_box, c.calls[names.index('bounds')][1])
    if bool(c.calls[names.index('flatten')][1]) != inv:
        raise Violation('inversion when %s is flattened' % what, inv, c.calls[names.index('flatten')][1])
    dumps = [k for k in c.calls if k[0] == 'dump']
    if dumps != ([('dump', path)] if 'file' in call or call == 'positional' else []) or dumps and names[-1] != 'dump':
        raise Violation('picture files of %s' % what, path, dumps)
    check_objects(c.calls, prims, state, what)
    after = list(f.primitives)
    if len(after) != len(prims) or [p.bounding_box for p in after] != before:
        raise Violation('drawing changed %s' % what)
    check(c, state, 'drawing %s' % what)
    return state


def run(case, ctx):
    ctx.trace()
    if case[0] == 'step':
        s, hist = closure()[case[1]]
        e = EVENTS[case[2]]
        c, other = make(case[3]), make(case[3])
        check(c, DEFAULT, 'nothing')
        for h in hist:
            assign(c, h, hist)
        assign(c, e, hist + [e])
        t = step(s, e)
        ctx.transition(s, e, t)
        check(c, t, hist + [e])
        check(other, DEFAULT, 'nothing')
        return t, case[3]
    if case[0] == 'seq':
        c, s = make(case[2]), DEFAULT
        for i in case[1]:
            assign(c, EVENTS[i], case[1])
            t = step(s, EVENTS[i])
            ctx.transition(s, EVENTS[i], t)
            s = t
            check(c, s, [EVENTS[k] for k in case[1]])
        return s, case[1]
    if case[0] == 'draw':
        f = load(case[1])
        s = drawn(f, recorder(), case[2], ctx, DEFAULT, repr(case[1]))
        return repr(case[1:]), len(f.primitives)
    if case[0] == 'net':
        from gerber import ipc356
        from mc.props import p16_netlist as N
        _, n, layer, call = case
        access = [(n * 5 + k * (n + 2)) % 9 for k in range(n)]
        text = 'P  JOB x\n' + ''.join(N.line_text(('rec', 'N%d' % k, 'R%d' % k, '1', a, k, n)) + '\n' for k, a in enumerate(access)) + '999\n'
        f = ipc356.loads(text)
        c = recorder()
        path = os.path.join(ctx.scratch, 'net.png')
        kw = dict(layer=layer) if layer else {}
        if call == 'file':
            kw['filename'] = path
        f.render(c, **kw)
        sees = {'top': (0, 1), 'bottom': (0, 8)}.get(layer, (0, 1, 8))
        prims = [c2[1] for c2 in c.calls if c2[0] == 'pre']
        want = ['N%d' % k for k, a in enumerate(access) if a in sees]
        if [p.net_name for p in prims] != want:
            raise Violation('test points drawn on %s of\n%s' % (layer, text), want, [p.net_name for p in prims])
        check_objects(c.calls, prims, DEFAULT, text)
        if [k for k in c.calls if k[0] == 'dump'] != ([('dump', path)] if call == 'file' else []):
            raise Violation('picture file of a netlist', path, c.calls)
        return repr(case), want
    c, s = recorder(), DEFAULT
    files = {}
    total = 0
    for e in case[1]:
        old = s
        if e[0] == 'draw':
            f = files.setdefault(e[1], None) or load(FILES[e[1]])
            files[e[1]] = f
            s = drawn(f, c, e[2], ctx, s, '%r after %r' % (FILES[e[1]], case[1]))
            total += len(f.primitives)
        elif e[0] == 'one':
            # single objects, and nothing
            f = load(FILES[0])
            c.calls = []
            for p in f.primitives:
                c.render(p)
                c.render(p)
                c.render(None)
            check_objects(c.calls, [p for p in f.primitives for _ in range(2)], s, 'single objects after %r' % (case[1],))
        else:
            v = COLORS[e[1]] if e[0] == 'color' else e[1]
            setattr(c, e[0], v)
            s = step(s, ('set', e[0], v))
        ctx.transition(old, e, s)
        check(c, s, case[1])
    return repr(case[1]), s
