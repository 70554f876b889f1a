"""P22: a rendered picture shows what is dark, in painting order, and nothing else."""
import math
from itertools import product

from mc import emodel as E
from mc import espace as S
from mc import gdocs as D
from mc import gmodel as G
from mc import raster as R
from mc.core import Violation, digest
from mc.props import p20_gerber_backend as P20

PID = 'P22'
LEVEL = 'exploration'
RULE = ('(a) every object of a catalogue x polarity x (over nothing, over a dark field, over a dark field with a clear '
        'patch) x inverted x mirrored x frame; (b) every ordered pair of objects x polarities x inverted; (c) every '
        'ordered triple of a smaller catalogue; (d) every stack of layers with settings; (e) drill files; (f) files rendered '
        'in turn with CamFile.render; (g) render_layers: every list of classed layers x theme x picture size; (h) layers '
        'of files converted or moved; (i) objects down to 0.3 pixels at every quarter of a pixel: the covered area; '
        '(j) netlists: every test point and name; (k) every stack written as SVG; (l) one aperture, stroke, arc, slot or macro part of every proportion; every pixel '
        'away from edges is compared with a point-membership model; outcome = the picture')
BOUNDS = {'quick': '(a) 43 objects, 6 frames; (b) 43 x 43 pairs x 2 x 2; (c) 8^3 triples x 8; (d) stacks <= 3 of 11 layers; '
                   '(e) 13 drill documents, 6 frames; (f) <= 2 of 8 files; (g) <= 3 of 11 classed layers x 5 themes; '
                   '(i) 72 objects x 16 places x 2 frames; (j) 4 netlists x 4 frames; (k) stacks <= 2 of 11 layers x 2 frames; (l) 895 objects x 2 polarities',
          'thorough': '(a) the same with 12 frames; (b) x 4 polarities x 2; (c) 14^3 triples x 8 x 2; (d) stacks <= 3 of '
                      '15 layers; (g) <= 4; (i) 4 frames; (k) stacks of 15 layers'}
ASSUMPTIONS = ('pixels at the edge of an object are not compared exactly, those two pixels away from it are',
               'strokes are made with round pens, straight ones also with rectangular pens; rectangular holes are in '
               'unrotated apertures')
WHITE, BLACK = (1.0, 1.0, 1.0), (0.0, 0.0, 0.0)
FRAMES = {'unit': (((-1.0, 3.0), (-1.0, 3.0)), 20), 'tight': (((0.0, 2.0), (0.0, 2.0)), 30),
          'odd': (((-1.03, 2.71), (-0.57, 3.3)), 17.3), 'file': (None, 20), 'neg': (((-2.5, -0.4), (-3.0, 1.0)), 16),
          'corner': (((1.0, 2.5), (1.2, 2.6)), 41),
          'wide': (((-2.0, 6.0), (0.0, 1.5)), 13), 'tall': (((0.5, 1.5), (-3.0, 4.0)), 12.5),
          'fine': (((0.25, 1.75), (0.25, 1.75)), 72), 'coarse': (((-2.0, 4.0), (-2.0, 4.0)), 14),
          'file2': (None, 31.7), 'far': (((-9.0, 2.0), (-7.0, 2.5)), 11)}
FR = ['unit', 'tight', 'odd', 'file', 'neg', 'corner']
# objects: (aperture, commands); the flash position or the stroke is around (1, 1)
FLASH = [['c', 'G01', 4, 4, None, None, 'D03']]
OBJ = {'f-' + a: (a, FLASH) for a in D.APERTURES if a not in ('c0', 'fine', 'finer', 'phh', 'BOX2', 'TRI2', 'DONUT2', 'BIG', 'FINEMAC', 'FIDUCIAL', 'EMPTY')}
OBJ['f-p45hh'] = ('P45hh', FLASH)
LINES = {'h': (0, 4, 8, 4), 'v': (4, 8, 4, 0), 'd': (0, 2, 6, 8), 'dot': (4, 4, 4, 4), 'b': (6, 0, 1, 7)}
for _n, _l in LINES.items():
    for _a in ('c', 'r'):
        OBJ['l%s-%s' % (_n, _a)] = (_a, [['c', 'G01', _l[0], _l[1], None, None, 'D02'],
                                         ['c', None, _l[2], _l[3], None, None, 'D01']])


def arc(func, quad, s, e, off):
    return [[quad], ['c', 'G01', s[0], s[1], None, None, 'D02'], ['c', func, e[0], e[1], off[0], off[1], 'D01'], ['G01']]


ARCS = {'q1': ('G03', 'G75', (8, 4), (4, 8), (-4, 0)), 'q3': ('G02', 'G75', (8, 4), (4, 8), (-4, 0)),
        'circ': ('G03', 'G75', (8, 4), (8, 4), (-4, 0)), 'ccw': ('G02', 'G75', (4, 8), (4, 8), (0, -4)),
        'half': ('G03', 'G75', (0, 4), (8, 4), (4, 0)), 'half2': ('G02', 'G75', (0, 4), (8, 4), (4, 0)),
        's1': ('G03', 'G74', (8, 4), (4, 8), (4, 0)), 's2': ('G02', 'G74', (4, 8), (8, 4), (0, 4))}
for _n, _l in ARCS.items():
    OBJ['a' + _n] = ('c', arc(*_l))
REGIONS = {
    'tri': [['c', 'G01', 0, 0, None, None, 'D02'], ['c', None, 8, 0, None, None, 'D01'],
            ['c', None, 4, 8, None, None, 'D01'], ['c', None, 0, 0, None, None, 'D01']],
    'ell': [['c', 'G01', 0, 0, None, None, 'D02'], ['c', None, 0, 8, None, None, 'D01'],
            ['c', None, 3, 8, None, None, 'D01'], ['c', None, 3, 3, None, None, 'D01'],
            ['c', None, 8, 3, None, None, 'D01'], ['c', None, 8, 0, None, None, 'D01'],
            ['c', None, 0, 0, None, None, 'D01']],
    'two': [['c', 'G01', 0, 0, None, None, 'D02'], ['c', None, 4, 0, None, None, 'D01'],
            ['c', None, 0, 4, None, None, 'D01'], ['c', None, 0, 0, None, None, 'D01'],
            ['c', None, 8, 8, None, None, 'D02'], ['c', None, 8, 4, None, None, 'D01'],
            ['c', None, 4, 8, None, None, 'D01'], ['c', None, 8, 8, None, None, 'D01']],
    'arc': [['G75'], ['c', 'G01', 8, 4, None, None, 'D02'], ['c', 'G03', 0, 4, -4, 0, 'D01'],
            ['c', 'G01', 8, 4, None, None, 'D01']],
    'cw': [['G75'], ['c', 'G01', 0, 4, None, None, 'D02'], ['c', 'G02', 8, 4, 4, 0, 'D01'],
           ['c', None, 0, 4, -4, 0, 'D01'], ['G01']],
    'notch': [['G75'], ['c', 'G01', 0, 0, None, None, 'D02'], ['c', None, 8, 0, None, None, 'D01'],
              ['c', None, 8, 8, None, None, 'D01'], ['c', None, 6, 8, None, None, 'D01'],
              ['c', 'G02', 2, 8, -2, 0, 'D01'], ['c', 'G01', 0, 8, None, None, 'D01'], ['c', None, 0, 0, None, None, 'D01']],
    'disc': [['G75'], ['c', 'G01', 8, 4, None, None, 'D02'], ['c', 'G03', 8, 4, -4, 0, 'D01'], ['G01']],
}
for _n, _l in REGIONS.items():
    OBJ['g' + _n] = ('c', [['G36']] + _l + [['G37']])
FIELD = ('FIELD', FLASH)
PATCH = ('PATCH', [['c', 'G01', 6, 4, None, None, 'D03']])
EXTRA = {'FIELD': ['R', [3.5, 3.5]], 'PATCH': ['R', [1, 2]], 'P45hh': ['P', [1.5, 4, 0, 0.5, 0.25]],
         'c': ['C', [0.5]], 'ch': ['C', [1.5, 0.75]], 'chh': ['C', [1.5, 0.75, 0.5]], 'rh': ['R', [1.5, 1.25, 0.75]],
         'rhh': ['R', [1.25, 1.5, 0.5, 0.75]], 'oh': ['O', [1.25, 1.75, 0.75]], 'ohh': ['O', [2, 1.25, 0.5, 0.75]],
         'p': ['P', [1.5, 6]], 'ph': ['P', [1.75, 3, -30, 0.5]], 'BOX': ['BOX', [1.5, 0.75]], 'TRI': ['TRI', [1.5]],
         'DONUT': ['DONUT', [1.75, 0.75]], 'POLY': ['POLY', [0.75]]}
NAMES = sorted(OBJ)
CORE = ['f-rh', 'f-ohh', 'f-DONUT', 'ld-c', 'lv-r', 'aq3', 'gell', 'f-ph', 'f-chh', 'acirc', 'gdisc', 'f-THERM', 'f-TARGET',
        'gtwo']
CORE = [n for n in CORE if n in OBJ]
OVER = {'nothing': [], 'field': [(FIELD, 'D')], 'patch': [(FIELD, 'D'), (PATCH, 'C')]}
LAYERS = {'A': [('f-rh', 'D'), ('ld-c', 'D')], 'B': [('gtri', 'D'), ('f-ch', 'C')], 'C': [('ld-c', 'D'), ('lb-c', 'D')],
          'D': [('gell', 'D')], 'none': [], 'E': [('f-DONUT', 'D'), ('lb-r', 'D')], 'drill': None}
SETS = {'solid': dict(color=(1.0, 0.5, 0.0)), 'half': dict(color=(0.0, 0.25, 1.0), alpha=0.5),
        'mask': dict(color=(0.0, 0.5, 0.25), alpha=0.75, invert=True), 'mirror': dict(color=(0.25, 1.0, 0.5), mirror=True),
        'ghost': dict(color=(1.0, 1.0, 1.0), alpha=0.0),
        'maskmir': dict(color=(0.5, 0.0, 0.5), alpha=0.85, invert=True, mirror=True)}
STACK = [('A', 'solid'), ('B', 'mask'), ('C', 'half'), ('D', 'mirror'), ('E', 'maskmir'), ('drill', 'solid'), ('none', 'mask'),
         ('B', 'mirror'), ('A', 'mask'), ('drill', 'mirror'), ('D', 'ghost'), ('D', 'half'), ('E', 'solid'), ('C', 'maskmir'),
         ('drill', 'mask')]
DRILLS = [['holes'], ['holes2'], ['repeat'], ['g85'], ['rout'], ['rout2'], ['rout3'], ['inc'], ['zero'],
          ['holes', 'g85', 'rout2'], ['routg85', 'g85rout'], ['next'], ['endtool', 'holes']]
CLASSES = [('A', 'top'), ('B', 'topmask'), ('C', 'topsilk'), ('drill', 'drill'), ('D', 'bottom'), ('E', 'bottommask'),
           ('C', 'bottomsilk'), ('B', 'outline'), ('none', 'topmask'), ('D', 'ipc_netlist'), ('A', 'unknown')]
SIDED = ('top', 'topmask', 'topsilk', 'bottom', 'bottommask', 'bottomsilk')
THEME_NAMES = ['default', 'OSH Park', 'Blue', 'Transparent Copper', 'Transparent Multilayer']
UNITS = {'in': ('IN', (2, 4), 'L'), 'mm': ('MM', (3, 3), 'T')}


def cases(tier):
    quick = tier == 'quick'
    for name in NAMES:
        for pol, over, inv, mir, fr in product('DC', sorted(OVER), (0, 1), (0, 1), FR if quick else sorted(FRAMES)):
            yield ['draw', 'mm' if fr in ('odd', 'corner') else 'in', over, [[name, pol]], inv, mir, fr]
    for a, b in product(NAMES, repeat=2):
        for pols in ('DC', 'CD') if quick else ('DD', 'DC', 'CD', 'CC'):
            for inv in (0, 1):
                yield ['draw', 'in', 'patch' if pols[0] == 'C' else 'nothing', [[a, pols[0]], [b, pols[1]]], inv, 0, 'unit']
    for combo in product(CORE[:8] if quick else CORE, repeat=3):
        for pols in product('DC', repeat=3):
            for inv in (0,) if quick else (0, 1):
                yield ['draw', 'in', 'nothing', [list(x) for x in zip(combo, pols)], inv, 0, 'odd']
    for n in (1, 2, 3):
        for combo in product(STACK[:11] if quick else STACK, repeat=n):
            yield ['stack', [list(x) for x in combo], ['unit', 'odd', 'neg'][n % 3]]
    for d in range(len(DRILLS)):
        for inv, mir, fr in product((0, 1), (0, 1), FR if quick else sorted(FRAMES)):
            yield ['drill', d, inv, mir, fr]
    names = ['A', 'B', 'C', 'D', 'E', 'drill', 'mmA', 'mmC']
    for a in names:
        for inv, paint, out in product((0, 1), (0, 1), ('string', 'png')):
            yield ['render', [a], inv, paint, out]
    for a, b in product(names[:6], repeat=2):
        for paint in (0, 1):
            yield ['render', [a, b], 0, paint, 'string']
    for theme in THEME_NAMES:
        for n in (1, 2, 3) if quick else (1, 2, 3, 4):
            for combo in product(CLASSES if n < 3 else CLASSES[::3], repeat=n):
                if combo[0][0] != 'none':
                    for size in ((64, 48), (40, 90)) if n < 3 else ((50, 50),):
                        yield ['layers', theme, [list(x) for x in combo], list(size)]
    for name in names + ['mmdrill', 'mmB']:
        for n in (1, 2):
            for ops in product(('inch', 'metric', 'offset'), repeat=n):
                for when in ('before', 'after'):
                    yield ['converted', name, list(ops), when]
    for name in sorted(INK):
        for kx, ky in product(range(4), repeat=2):
            for fr in ('zero', 'shift') if quick else sorted(INK_FRAMES):
                yield ['ink', name, kx, ky, 'D', 0, fr]
                if ky == 1 or not quick:
                    yield ['ink', name, kx, ky, 'D', 1, fr]
                    if INK[name][0] != 'drill':
                        yield ['ink', name, kx, ky, 'C', 0, fr]
    for n in range(len(SHAPES)):
        for pol, mir in product('DC', (0, 1)) if not quick else (('D', n % 2), ('C', 1 - n % 2)):
            yield ['shape', n, pol, mir]
    for k, units, shift, mir, fr in product(range(len(NETLISTS)), ('inch', 'metric'), range(4), (0, 1), sorted(IPC_FRAMES)):
        yield ['ipc', k, units, shift, mir, fr]
    for n in (1, 2):
        for combo in product(STACK[:11] if quick else STACK, repeat=n):
            for fr in ('unit', 'odd'):
                for way in ('string', 'svg', 'SVG') if n == 1 else ('svg',):
                    yield ['svg', [list(x) for x in combo], fr, way]
    for a, b in (('A', 'drill'), ('B', 'D'), ('drill', 'B')):
        for swap in (0, 1):
            yield ['mixed', a, b, swap]


def program(items, h='in'):
    aps, cmds = {}, []
    head = D.head(*(UNITS[h] + ([],)))
    pol = 'D'
    for (ap, body), p in items:
        if ap not in aps:
            aps[ap] = 10 + len(aps)
            shape, mods = EXTRA.get(ap) or D.APERTURES[ap]
            if shape in D.MACROS and ['AM', shape, D.MACROS[shape]] not in head:
                head.append(['AM', shape, D.MACROS[shape]])
            head.append(['ADx', aps[ap], shape, mods])
        if p != pol:
            cmds.append(['LP', p])
            pol = p
        cmds += [['D', aps[ap]]] + body
    return head + cmds


def objects(prog):
    return D.transform(D.build(prog).out, 1.0, 0.0, 0.0)


def drill_objects(d):
    out = []
    for h in E.model_hits(d):
        out.append(('drill', h[3], h[2], 'dark') if h[0] == 'hole' else ('slot', h[3], h[4], h[2], 'dark'))
    return out


def layer(cam, cls='top'):
    from gerber.layers import PCBLayer
    return PCBLayer('layer', cls, cam)


def compare(pic, frame, sure, on, colour, text, what):
    w, h, px = pic
    if (w, h) != (frame.W, frame.H):
        raise Violation('size of the picture%s\nprogram:\n%s' % (what, text), (frame.W, frame.H), (w, h))
    n = 0
    for y in range(h):
        s, near = sure[y], sure[h + y]
        row = px[y]
        for x in range(w):
            if near >> x & 1:
                want = colour(on, x, y)
                got = row[x]
                n += 1
                if got != want and any(abs(a - b) > (3 if s >> x & 1 else 70) for a, b in zip(got, want)):
                    raise Violation('pixel (%d, %d) at (%.3f, %.3f)%s\nprogram:\n%s' % (
                        x, y, frame.xs[x + R.MARGIN], frame.ys[y + R.MARGIN], what, text), want, got)
    return n


def run(case, ctx):
    from gerber import excellon, rs274x
    from gerber.render.cairo_backend import GerberCairoContext
    from gerber.render.render import RenderSettings
    if case[0] == 'stack':
        return run_stack(case, ctx)
    if case[0] == 'render':
        return run_render(case, ctx)
    if case[0] == 'layers':
        return run_layers(case, ctx)
    if case[0] == 'converted':
        return run_converted(case, ctx)
    if case[0] == 'mixed':
        return run_mixed(case, ctx)
    if case[0] == 'ink':
        return run_ink(case, ctx)
    if case[0] == 'ipc':
        return run_ipc(case, ctx)
    if case[0] == 'shape':
        return run_shape(case, ctx)
    if case[0] == 'svg':
        return run_svg(case, ctx)
    if case[0] == 'draw':
        _, h, over, items, inv, mir, fr = case
        prog = program(OVER[over] + [(OBJ[n], p) for n, p in items], h)
        text = D.text_of(prog)
        cam, objs = rs274x.loads(text), objects(prog)
    else:
        _, d, inv, mir, fr = case
        cmds = S.document('inTZ24', DRILLS[d])
        text = E.render(cmds)
        cam, objs = excellon.loads(text), drill_objects(E.interpret(cmds))
    bounds, scale = FRAMES[fr]
    box = bounds if bounds is not None else layer(cam).bounds
    if not box or box[0][1] - box[0][0] <= 0.2 or box[1][1] - box[1][0] <= 0.2:
        return None
    frame = R.Frame(tuple(map(tuple, box)), scale, bool(mir))
    c = GerberCairoContext(scale)
    settings = RenderSettings(WHITE, invert=bool(inv), mirror=bool(mir))
    before = G.canon_file(cam) if case[0] == 'draw' else E.file_hits(cam)
    c.render_layer(layer(cam), settings=settings, bgsettings=RenderSettings(BLACK), bounds=bounds)
    pic = R.read_png(c.dump_str())
    after = G.canon_file(cam) if case[0] == 'draw' else E.file_hits(cam)
    if before != after:
        raise Violation('rendering changed the file\nprogram:\n%s' % text)
    ctx.trace()
    sure, on = R.picture(objs, frame, bool(inv))
    compare(pic, frame, sure, on, lambda on, x, y: (255, 255, 255) if on[y] >> x & 1 else (0, 0, 0), text,
            ', %s%s frame %s' % ('inverted' if inv else '', ' mirrored' if mir else '', fr))
    return digest(repr(pic[2]))


_stacked = {}


def source(name):
    from gerber import excellon, rs274x
    h = 'in'
    if name[:2] == 'mm':
        h, name = 'mm', name[2:]
    if name == 'drill':
        cmds = S.document('inTZ24' if h == 'in' else 'mmTZ33', ['holes', 'g85'])
        text = E.render(cmds)
        return excellon.loads(text), drill_objects(E.interpret(cmds)), text
    prog = program([(OBJ[n], p) for n, p in LAYERS[name]], h)
    text = D.text_of(prog)
    return rs274x.loads(text), objects(prog), text


def run_stack(case, ctx):
    from gerber.render.cairo_backend import GerberCairoContext
    from gerber.render.render import RenderSettings
    _, combo, fr = case
    bounds, scale = FRAMES[fr]
    c = GerberCairoContext(scale)
    bg = (0.25, 0.25, 0.25)
    layers, texts = [], []
    for name, s in combo:
        cam, objs, text = source(name)
        texts.append(text)
        kw = SETS[s]
        c.render_layer(layer(cam), settings=RenderSettings(**kw), bgsettings=RenderSettings(bg), bounds=bounds)
        frame = R.Frame(bounds, scale, kw.get('mirror', False))
        sure, on = R.picture(objs, frame, kw.get('invert', False))
        layers.append((on, kw['color'], kw.get('alpha', 1.0)))
        total = sure if len(layers) == 1 else [a & b for a, b in zip(total, sure)]
    pic = R.read_png(c.dump_str())
    ctx.trace()

    def colour(_, x, y):
        v = bg
        for on, col, alpha in layers:
            if on[y] >> x & 1:
                v = tuple(a * (1 - alpha) + b * alpha for a, b in zip(v, col))
        return tuple(int(round(a * 255)) for a in v)
    compare(pic, frame, total, None, colour, '\n'.join(texts), ' of layers %s, frame %s' % (combo, fr))
    return digest(repr(pic[2]))


def blend(layers, bg):
    def colour(_, x, y):
        v = bg
        for on, col, alpha in layers:
            if on[y] >> x & 1:
                v = tuple(a * (1 - alpha) + b * alpha for a, b in zip(v, col))
        return tuple(int(round(a * 255)) for a in v)
    return colour


def both(total, sure):
    return sure if total is None else [a & b for a, b in zip(total, sure)]


def run_render(case, ctx):
    """CamFile.render: the files of a list one after another on one context"""
    import os
    from gerber.render.cairo_backend import GerberCairoContext
    _, names, inv, paint, out = case
    c = GerberCairoContext(25)
    bg, col, alpha = (0.0, 0.0, 0.0), (0.7215, 0.451, 0.2), 1.0
    if paint:
        c.background_color, c.color, c.alpha = bg, col, alpha = (0.1, 0.2, 0.9), (0.9, 0.5, 0.1), 0.5
    frame, total, layers, texts = None, None, [], []
    target = os.path.join(ctx.scratch, 'picture.png')
    for n, name in enumerate(names):
        cam, objs, text = source(name)
        texts.append(text)
        if frame is None:
            frame = R.Frame(tuple(map(tuple, cam.bounding_box)), 25)
        cam.render(c, invert=bool(inv), filename=target if out == 'png' and n == len(names) - 1 else None)
        sure, on = R.picture(objs, frame, bool(inv))
        layers.append((on, col, alpha))
        total = both(total, sure)
    if out == 'png':
        with open(target, 'rb') as f:
            pic = R.read_png(f.read())
    else:
        pic = R.read_png(c.dump_str())
    ctx.trace()
    compare(pic, frame, total, None, blend(layers, bg), '\n'.join(texts), ' of %s rendered in turn' % (names,))
    return digest(repr(pic[2]))


def settings_of(theme, cls):
    """(colour, alpha, inverted, mirrored) a theme gives a class of layers; black for those it does not know"""
    from gerber.render.theme import THEMES
    s = getattr(THEMES[theme], cls, None)
    if s is None:
        return (0.0, 0.0, 0.0), 1.0, False, False
    return tuple(s.color), s.alpha, bool(s.invert), bool(s.mirror)


def run_layers(case, ctx):
    """render_layers: the picture fits the size asked for and shows every layer with the settings of its class"""
    import io
    import math
    from gerber.render.cairo_backend import GerberCairoContext
    from gerber.render.theme import THEMES
    _, theme, combo, (width, height) = case
    sources = [source(name) for name, _ in combo]
    boards = [layer(s[0], cls) for s, (_, cls) in zip(sources, combo)]
    boxes = [b.bounds for b in boards if b.bounds]
    w = max(b[0][1] for b in boxes) - min(b[0][0] for b in boxes)
    h = max(b[1][1] for b in boxes) - min(b[1][0] for b in boxes)
    scale = math.floor(min(width / w, height / h))
    frame = tuple(map(tuple, boards[0].bounds))
    c = GerberCairoContext()
    out = io.BytesIO()
    c.render_layers(boards, out, theme=THEMES[theme], max_width=width, max_height=height)
    pic = R.read_png(out.getvalue())
    ctx.trace()
    if pic[0] > width or pic[1] > height:
        raise Violation('the picture is larger than asked for (%s)' % (combo,), (width, height), pic[:2])
    total, layers = None, []
    sides = [settings_of(theme, cls)[3] for _, cls in combo if cls in SIDED]
    turned = bool(sides) and all(sides)
    for (cam, objs, text), (_, cls) in zip(sources, combo):
        col, alpha, inv, mir = settings_of(theme, cls)
        f = R.Frame(frame, scale, mir or turned)
        sure, on = R.picture(objs, f, inv)
        total = both(total, sure)
        layers.append((on, col, alpha))
    bg = tuple(THEMES[theme].background.color)
    compare(pic, f, total, None, blend(layers, bg), '\n'.join(s[2] for s in sources),
            ' of layers %s in theme %s' % (combo, theme))
    return digest(repr(pic[2]))


def run_mixed(case, ctx):
    """a layer in millimetres rendered together with one in inches is in its real place"""
    from gerber.render.cairo_backend import GerberCairoContext
    from gerber.render.render import RenderSettings
    _, a, b, swap = case
    if swap:
        a, b = 'mm' + a, b
    else:
        b = 'mm' + b
    bounds, scale = FRAMES['unit']
    c = GerberCairoContext(scale)
    layers, total = [], None
    for n, name in enumerate((a, b)):
        cam, objs, text = source(name)
        c.render_layer(layer(cam), settings=RenderSettings((0.0, 1.0, 0.0) if n else (1.0, 0.0, 0.0)),
                       bgsettings=RenderSettings((0.0, 0.0, 0.0)), bounds=bounds)
        # in the units of the first layer
        k = {(0, 1): 1 / 25.4, (1, 0): 25.4}.get((int(a[:2] == 'mm'), int(name[:2] == 'mm')), 1.0)
        frame = R.Frame(tuple((x0 / k, x1 / k) for x0, x1 in bounds), scale * k)
        sure, on = R.picture(objs, frame)
        total = both(total, sure)
        layers.append((on, (0.0, 1.0, 0.0) if n else (1.0, 0.0, 0.0), 1.0))
    pic = R.read_png(c.dump_str())
    ctx.trace()
    try:
        compare(pic, frame, total, None, blend(layers, (0.0, 0.0, 0.0)), '', ' of layers in inches and millimetres')
    except Violation as v:
        v.finding = 'layers-of-different-units'
        raise
    return digest(repr(pic[2]))


def run_converted(case, ctx):
    """a layer shows its file as it is when rendered, whether made before or after the file was converted or moved"""
    from gerber.render.cairo_backend import GerberCairoContext
    from gerber.render.render import RenderSettings
    _, name, ops, when = case
    cam, objs, text = source(name)
    board = layer(cam)
    units = 'metric' if name[:2] == 'mm' else 'inch'
    k, dx, dy = 1.0, 0.0, 0.0
    for op in ops:
        if op == 'offset':
            cam.offset(0.5, -0.25)
            dx, dy = dx + 0.5, dy - 0.25
        else:
            (cam.to_inch if op == 'inch' else cam.to_metric)()
            if op != units:
                f = 1 / 25.4 if op == 'inch' else 25.4
                k, dx, dy, units = k * f, dx * f, dy * f, op
    if when == 'after':
        board = layer(cam)
    # a frame of the same part of the file as before; the model stays in the first units
    (x0, x1), (y0, y1) = bounds = FRAMES['odd'][0]
    box = ((x0 * k + dx, x1 * k + dx), (y0 * k + dy, y1 * k + dy))
    scale = FRAMES['odd'][1]
    c = GerberCairoContext(scale / k)
    c.render_layer(board, settings=RenderSettings(WHITE), bgsettings=RenderSettings(BLACK), bounds=box)
    pic = R.read_png(c.dump_str())
    ctx.trace()
    frame = R.Frame(bounds, scale)
    sure, on = R.picture(objs, frame)
    compare(pic, frame, sure, on, lambda on, x, y: (255, 255, 255) if on[y] >> x & 1 else (0, 0, 0), text,
            ' of a layer made %s its file was changed by %s' % (when, ops))
    return digest(repr(pic[2]))


INK = {}
for _w in (3, 6, 14, 25):           # tenths of a pixel
    w = _w / 10.0
    for _n, _dx, _dy in (('h', 5, 0), ('v', 0, 5), ('d', 3, 4), ('b', 4, -3)):
        INK['line-%s-%d' % (_n, _w)] = ('C,%s', [w], [('line', -_dx, -_dy, _dx, _dy)], 10 * w + math.pi * w * w / 4)
    for _n, _dx, _dy in (('h', 5, 0), ('v', 0, 5)):
        INK['pen-%s-%d' % (_n, _w)] = ('R,%sX%s', [w, w], [('line', -_dx, -_dy, _dx, _dy)], 10 * w + w * w)
    INK['dot-%d' % _w] = ('C,%s', [w], [('line', 0, 0, 0, 0)], math.pi * w * w / 4)
    INK['flash-%d' % _w] = ('C,%s', [w], [('flash',)], math.pi * w * w / 4)
    INK['rect-h-%d' % _w] = ('R,%sX%s', [9, w], [('flash',)], 9 * w)
    INK['rect-v-%d' % _w] = ('R,%sX%s', [w, 9], [('flash',)], 9 * w)
    INK['obround-h-%d' % _w] = ('O,%sX%s', [9, w], [('flash',)], (9 - w) * w + math.pi * w * w / 4)
    INK['obround-v-%d' % _w] = ('O,%sX%s', [w, 9], [('flash',)], (9 - w) * w + math.pi * w * w / 4)
    INK['poly-%d' % _w] = ('P,%sX4', [w * 2], [('flash',)], w * w * 2)
    if _w > 20:
        INK['hole-%d' % _w] = ('C,%sX%s', [6, 6 - w], [('flash',)], math.pi * (36 - (6 - w) ** 2) / 4)
    if _w > 20:
        INK['frame-%d' % _w] = ('R,%sX%sX%s', [6, 6, 6 - w], [('flash',)], 36 - math.pi * (6 - w) ** 2 / 4)
    INK['macro-%d' % _w] = ('BAR,%sX%s', [9, w], [('flash',)], 9 * w)
    INK['arc-%d' % _w] = ('C,%s', [w], [('arc', 5)], 5 * math.pi / 2 * w + math.pi * w * w / 4)
    INK['region-h-%d' % _w] = ('C,%s', [1], [('region', 9, w)], 9 * w)
    INK['region-v-%d' % _w] = ('C,%s', [1], [('region', w, 9)], 9 * w)
    INK['drill-%d' % _w] = ('drill', [w], [], math.pi * w * w / 4)
    INK['slot-h-%d' % _w] = ('drill', [w], [('line', -5, 0, 5, 0)], 10 * w + math.pi * w * w / 4)
    INK['slot-v-%d' % _w] = ('drill', [w], [('line', 0, -5, 0, 5)], 10 * w + math.pi * w * w / 4)
INK_FRAMES = {'zero': (0.0, 0.0), 'shift': (0.3, 0.7), 'half': (-20.5, 3.25), 'far': (100.9, -50.1)}
NETLISTS = [['A'], ['NET7', 'X'], ['M', 'M', 'LONGNAME'], ['WW', '-9V', 'N/C', 'A']]
IPC_FRAMES = {'zero': ((0.0, 0.5), (0.0, 0.4)), 'pos': ((1.25, 1.75), (0.5, 0.9)), 'neg': ((-0.8, -0.3), (-3.0, -2.6)),
              'odd': ((0.013, 0.52), (-0.27, 0.131))}
SPOTS = [(0.05, 0.05), (0.2, 0.15), (0.1, 0.25), (0.22, 0.31)]


def ink_source(name, x, y, scale, pol):
    """(text, kind) of a program with one object around (x, y); sizes in pixels"""
    ap, dims, body, area = INK[name]

    def num(v):
        return '%d' % round(v / scale * 1e6)
    if ap == 'drill':
        def pos(dx, dy):
            return 'X%.5fY%.5f' % ((x + dx) / scale, (y + dy) / scale)
        out = ['M48', 'INCH,LZ', 'T1C%.5f' % (dims[0] / scale), '%', 'T1']
        out.append(pos(*body[0][1:3]) + 'G85' + pos(*body[0][3:5]) if body else pos(0, 0))
        return '\n'.join(out + ['M30', ''])
    size = tuple('%.6f' % (d / scale) for d in dims)
    out = ['%FSLAX26Y26*%', '%MOIN*%', '%AMBAR*21,1,$1,$2,0,0,0*%', '%ADD11R,40X40*%', '%ADD10' + ap % size + '*%', 'G75*']
    if pol == 'C':
        out += ['D11*', 'X%sY%sD03*' % (num(x), num(y)), '%LPC*%']
    out.append('D10*')

    def at(dx, dy):
        return 'X%sY%s' % (num(x + dx), num(y + dy))
    for b in body:
        if b[0] == 'flash':
            out.append(at(0, 0) + 'D03*')
        elif b[0] == 'line':
            out += ['G01' + at(b[1], b[2]) + 'D02*', at(b[3], b[4]) + 'D01*']
        elif b[0] == 'arc':
            r = b[1]
            out += ['G01' + at(r, 0) + 'D02*', 'G03' + at(0, r) + 'I%sJ%sD01*' % (num(-r), num(0)), 'G01*']
        else:
            w, h = b[1] / 2.0, b[2] / 2.0
            out += ['G36*', 'G01' + at(-w, -h) + 'D02*'] + [at(*p) + 'D01*' for p in ((w, -h), (w, h), (-w, h), (-w, -h))]
            out.append('G37*')
    return '\n'.join(out + ['M02*', ''])


def run_ink(case, ctx):
    """however thin an object is and wherever it is, the picture is as much darker as the object is large"""
    from gerber import excellon, rs274x
    from gerber.render.cairo_backend import GerberCairoContext
    from gerber.render.render import RenderSettings
    _, name, kx, ky, pol, inv, fr = case
    scale, W, H = 20, 20, 18
    ox, oy = INK_FRAMES[fr]
    text = ink_source(name, ox + 8 + kx / 4.0, oy + 8 + ky / 4.0, scale, pol)
    cam = (excellon if INK[name][0] == 'drill' else rs274x).loads(text)
    c = GerberCairoContext(scale)
    c.render_layer(layer(cam), settings=RenderSettings(WHITE, invert=bool(inv)), bgsettings=RenderSettings(BLACK),
                   bounds=((ox / scale, (ox + W - 1e-6) / scale), (oy / scale, (oy + H - 1e-6) / scale)))
    w, h, px = R.read_png(c.dump_str())
    ctx.trace()
    area = INK[name][3]
    ink = sum(p[0] for row in px for p in row) / 255.0
    if (pol == 'C') != bool(inv):
        ink = W * H - ink
    if abs(ink - area) > 0.3 * area + 0.15:
        raise Violation('covered area of an object in pixels (frame %s, polarity %s)\nprogram:\n%s' % (fr, pol, text), area, ink)
    return digest(repr(px))


def shapes():
    """one object each around (1, 1): (aperture, what is drawn); sizes are multiples of 1/16"""
    holes = [[], [0.25], [0.75], [0.25, 0.75], [0.75, 0.25], [0.5, 0.5]]
    for d in (1, 1.5):
        for h in holes:
            yield ['C', [d] + h], 'flash'
    for s in 'RO':
        for w, h in product((0.5, 1, 1.75), repeat=2):
            for hole in holes:
                # (the hole is within the aperture)
                if not hole or (max(hole) < min(w, h) if len(hole) == 1 or s == 'O' else hole[0] < w and hole[1] < h):
                    yield [s, [w, h] + hole], 'flash'
    for n in (3, 4, 5, 6, 7, 8, 12):
        yield ['P', [1.5, n]], 'flash'
        for r in (0, 15, 30, 45, 90, -10, 270, 22.5):
            yield ['P', [1.5, n, r]], 'flash'
            yield ['P', [1.5, n, r, 0.375]], 'flash'
            if r == 0:
                yield ['P', [1.75, n, r, 0.25, 0.5]], 'flash'
                yield ['P', [1.75, n, r, 0.5, 0.25]], 'flash'
    # strokes and slots of every direction, longer and shorter than wide
    for dx, dy in product((-4, -2, -1, 0, 1, 2, 4), repeat=2):
        for d in (0.25, 1):
            yield ['C', [d]], ['line', dx, dy]
            yield ['slot', [d]], ['line', dx, dy]
        yield ['R', [0.25, 1]], ['line', dx, dy]
        yield ['R', [0.75, 0.5]], ['line', dx, dy]
    # arcs larger and smaller than the pen
    for r in (1, 2, 3):
        for d in (0.25, 0.75):
            for a, b in product(range(4), repeat=2):
                for func in ('G02', 'G03'):
                    yield ['C', [d]], ['arc', r, a, b, func, 'G75']
                    if (b - a if func == 'G03' else a - b) % 4 == 1:
                        yield ['C', [d]], ['arc', r, a, b, func, 'G74']
    # parts of macros, alone and cut out of or into a larger one
    for code in sorted(P20.FAM):
        for v in P20.FAM[code]:
            for r in ((0, 20) if code not in ('1',) else (0,)):
                q = list(v)
                if r:
                    q[-1] += r
                for what in (([code] + q,), (['1', 1, 1.75, 0.125, 0], [code] + q)):
                    if what[0][0] == '1' or what[0][1] != 0 or code == '7':
                        yield ['prims', what], 'flash'


SHAPES = list(shapes())


def run_shape(case, ctx):
    from gerber import excellon, rs274x
    from gerber.render.cairo_backend import GerberCairoContext
    from gerber.render.render import RenderSettings
    _, n, pol, mir = case
    (kind, mods), what = SHAPES[n]
    objs, q = [], 'dark' if pol == 'D' else 'clear'
    if pol == 'C':
        objs.append(('flash', ('R', 2.5, 2.5, (0.0, 0.0, 0.0)), (1.0, 1.0), 'dark'))
    if what == 'flash':
        ends = None
    elif what[0] == 'line':
        ends = [(1 + s * what[1] / 8.0, 1 + s * what[2] / 8.0) for s in (-1, 1)]
    else:
        _, r, a, b, func, quad = what
        ends = [(1 + r * x / 4.0, 1 + r * y / 4.0) for x, y in [((1, 0), (0, 1), (-1, 0), (0, -1))[k] for k in (a, b)]]

    def xy(p, base=None, names='XY'):
        return ''.join('%s%d' % (c, round((v - o) * 10000)) for c, v, o in zip(names, p, base or (0, 0)))
    if kind == 'slot':
        text = 'M48\n;FILE_FORMAT=2:4\nINCH,TZ\nT1C%.4f\n%%\nT1\n%sG85%s\nM30\n' % (mods[0], xy(ends[0]), xy(ends[1]))
        if pol == 'C':
            return None
        cam = excellon.loads(text)
        objs.append(('slot', ends[0], ends[1], float(mods[0]), q))
    else:
        if kind == 'prims':
            define = '%%AMX*%s%%\n%%ADD10X*%%\n' % ''.join(P20.macro_text((m[0], m[1:])) for m in mods)
            ap = ('prims', tuple(tuple(m) for m in mods))
        else:
            define = '%%ADD10%s,%s*%%\n' % (kind, 'X'.join('%g' % v for v in mods))
            g = D.build([['FS', 'L', [2, 4]], ['MO', 'IN'], ['AD', 10, kind, mods]])
            ap = D.scaled_aperture(g.aps[10], 1.0)
        text = '%FSLAX24Y24*%\n%MOIN*%\n%ADD11R,2.5X2.5*%\n' + define
        if pol == 'C':
            text += 'D11*\nX10000Y10000D03*\n%LPC*%\n'
        text += 'D10*\n'
        if ends is None:
            text += 'X10000Y10000D03*\n'
            objs.append(('flash', ap, (1.0, 1.0), q))
        elif what[0] == 'line':
            text += xy(ends[0]) + 'D02*\n' + xy(ends[1]) + 'D01*\n'
            objs.append(('line', ends[0], ends[1], ap, q))
        else:
            off = xy((1, 1), ends[0], 'IJ') if quad == 'G75' else xy([abs(1 - v) for v in ends[0]], None, 'IJ')
            text += '%s*\n%sD02*\n%s%s%sD01*\n' % (quad, xy(ends[0]), func, xy(ends[1]), off)
            objs.append(('arc', ends[0], ends[1], (1.0, 1.0), 'clockwise' if func == 'G02' else 'counterclockwise',
                         'multi-quadrant' if quad == 'G75' else 'single-quadrant', ap, q))
        cam = rs274x.loads(text + 'M02*\n')
    bounds, scale = ((-0.25, 2.25), (-0.25, 2.25)), 20
    frame = R.Frame(bounds, scale, bool(mir))
    c = GerberCairoContext(scale)
    c.render_layer(layer(cam), settings=RenderSettings(WHITE, mirror=bool(mir)), bgsettings=RenderSettings(BLACK), bounds=bounds)
    pic = R.read_png(c.dump_str())
    ctx.trace()
    sure, on = R.picture(objs, frame)
    compare(pic, frame, sure, on, lambda on, x, y: (255, 255, 255) if on[y] >> x & 1 else (0, 0, 0), text, '')
    return digest(repr(pic[2]))


def run_ipc(case, ctx):
    """test points are dots with their net name at their place"""
    from gerber import ipc356
    from gerber.render.cairo_backend import GerberCairoContext
    from gerber.render.render import RenderSettings
    _, k, units, shift, mir, fr = case
    bounds = IPC_FRAMES[fr]
    scale = 400
    unit = 10000 if units == 'inch' else 1000
    lines, where = ['P  JOB', 'P  UNITS CUST %d' % (0 if units == 'inch' else 1)], []
    for n, net in enumerate(NETLISTS[k]):
        sx, sy = SPOTS[(n + shift) % len(SPOTS)]
        x, y = (int(round((bounds[0][0] + sx) * unit)), int(round((bounds[1][0] + sy) * unit)))
        lines.append('327%-14s   U1    -%-4d D0138PA01X%+07dY%+07dX0315Y0000R000 S0' % (net, n + 1, x, y))
        where.append((x / float(unit), y / float(unit), net))
    lines += ['999', '']
    netlist = ipc356.loads('\n'.join(lines))
    c = GerberCairoContext(scale)
    c.render_layer(layer(netlist, 'ipc_netlist'), settings=RenderSettings(WHITE, mirror=bool(mir)),
                   bgsettings=RenderSettings(BLACK), bounds=bounds)
    w, h, px = R.read_png(c.dump_str())
    ctx.trace()
    frame = R.Frame(bounds, scale, bool(mir))
    if (w, h) != (frame.W, frame.H):
        raise Violation('size of the picture', (frame.W, frame.H), (w, h))
    objs = [('drill', (x, y), 0.015, 'dark') for x, y, _ in where]
    sure, on = R.picture(objs, frame)
    boxes = []
    for x, y, net in where:
        # the name starts above and to the right of the point
        tx, ty = (x + 0.015 - bounds[0][0]) * scale, (y + 0.015 - bounds[1][0]) * scale
        x0, x1, y0, y1 = tx - 1, tx + 9 * len(net) + 1, ty - 4, ty + 14
        if mir:
            x0, x1 = frame.px[0] - x1, frame.px[0] - x0
        y0, y1 = frame.px[1] - y1, frame.px[1] - y0
        boxes.append((int(math.floor(x0)), int(math.ceil(x1)), int(math.floor(y0)), int(math.ceil(y1)), net))
    for x0, x1, y0, y1, net in boxes:
        bits = 0
        for x in range(max(0, x0), min(w, x1)):
            bits |= 1 << x
        for y in range(max(0, y0), min(h, y1)):
            sure[y] &= ~bits
            sure[h + y] &= ~bits
    compare((w, h, px), frame, sure, on, lambda on, x, y: (255, 255, 255) if on[y] >> x & 1 else (0, 0, 0),
            '\n'.join(lines), ' of test points, frame %s' % fr)
    for x0, x1, y0, y1, net in boxes:
        ink = [(x, y) for y in range(max(0, y0), min(h, y1)) for x in range(max(0, x0), min(w, x1)) if px[y][x][0] > 100]
        if x0 < 0 or x1 > w or y0 < 0 or y1 > h:
            continue
        # every character is seen where the name is
        for n in range(len(net)):
            a = x0 + 1 + 8 * n if not mir else x1 - 9 - 8 * n
            if not any(a - 1 <= x <= a + 8 for x, y in ink):
                raise Violation('character %d of the net name %s is missing\n%s' % (n + 1, net, '\n'.join(lines)), None, (x0, x1))
    return digest(repr(px))


def run_svg(case, ctx):
    """the picture written as SVG shows the same layers as the PNG picture"""
    import base64
    import os
    import re
    from gerber.render.cairo_backend import GerberCairoContext
    from gerber.render.render import RenderSettings
    _, combo, fr, way = case
    bounds, scale = FRAMES[fr]
    c = GerberCairoContext(scale)
    bg = (0.25, 0.25, 0.25)
    target = os.path.join(ctx.scratch, 'picture.' + way)
    layers, texts = [], []
    for n, (name, s) in enumerate(combo):
        cam, objs, text = source(name)
        texts.append(text)
        kw = SETS[s]
        c.render_layer(layer(cam), filename=target if way != 'string' and n == len(combo) - 1 else None,
                       settings=RenderSettings(**kw), bgsettings=RenderSettings(bg), bounds=bounds)
        frame = R.Frame(bounds, scale, kw.get('mirror', False))
        sure, on = R.picture(objs, frame, kw.get('invert', False))
        layers.append((on, kw['color'], kw.get('alpha', 1.0)))
        total = sure if len(layers) == 1 else [a & b for a, b in zip(total, sure)]
    if way == 'string':
        data = c.dump_svg_str()
    else:
        with open(target, 'rb') as f:
            data = f.read()
    if c.dump_svg_str() != data:
        raise Violation('the SVG picture differs when asked for again\n' + '\n'.join(texts))
    ctx.trace()
    data = data.decode('utf-8')
    size = re.search(r'<svg [^>]*width="([\d.]+)(?:pt)?" height="([\d.]+)', data)
    if not size or any(abs(float(a) - b) > 0.01 for a, b in zip(size.groups(), frame.px)):
        raise Violation('size of the SVG picture\n' + '\n'.join(texts), frame.px, size and size.groups())
    # rectangles of one colour, each behind the mask made of one picture
    images = dict(re.findall(r'<image id="([^"]*)"[^>]*base64,([^"]*)"', data))
    masks = dict(re.findall(r'<mask id="([^"]*)">\s*<g[^>]*>\s*<use xlink:href="#([^"]*)"/>\s*</g>\s*</mask>', data))
    body = data.split('</defs>')[-1]
    paints = re.findall(r'(?:<g mask="url\(#([^)]*)\)">\s*)?<rect [^>]*fill="rgb\(([\d.]+)%, ([\d.]+)%, ([\d.]+)%\)" '
                        r'fill-opacity="([\d.]+)"/>', body)
    shown = []
    for mask, r, g, b, alpha in paints:
        im = None
        if mask:
            if masks.get(mask) not in images:
                return None
            im = read_alpha(base64.b64decode(images[masks[mask]]))
        shown.append((im, tuple(float(v) * 2.55 for v in (r, g, b)), float(alpha)))
    w, h = frame.W, frame.H
    px = []
    for y in range(h):
        row = []
        for x in range(w):
            v = (0.0, 0.0, 0.0)
            for im, col, alpha in shown:
                a = alpha if im is None else alpha * (im[y][x] if y < len(im) and x < len(im[y]) else 0) / 255.0
                v = tuple(p * (1 - a) + q * a for p, q in zip(v, col))
            row.append(tuple(int(round(p)) for p in v))
        px.append(row)
    compare((w, h, px), frame, total, None, blend(layers, bg), '\n'.join(texts), ' of the SVG picture, layers %s, frame %s' % (
        combo, fr))
    return digest(repr(px))


def read_alpha(data):
    import io
    try:
        import cairo
    except ImportError:
        import cairocffi as cairo
    im = cairo.ImageSurface.create_from_png(io.BytesIO(data))
    w, h, st = im.get_width(), im.get_height(), im.get_stride()
    d = bytes(im.get_data())
    return [[d[y * st + x * 4 + 3] for x in range(w)] for y in range(h)]
