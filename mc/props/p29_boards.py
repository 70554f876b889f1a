"""P29: the pictures gerber-render writes show the sides of a board (or a list of files), each layer in its place."""
from itertools import combinations, product
import math
import os
import shutil
import struct
import sys

from mc import raster as R
from mc.core import Violation, digest
from mc.props import p22_pictures as V

PID = 'P29'
LEVEL = 'exploration'
RULE = ('(a) every set of files of a board directory x theme x picture size x units: gerber-render writes the pictures of '
        'the top, the bottom and the copper, compared pixel by pixel with the layers of that side in their order; '
        '(b) every list of files up to a fixed length x theme: one picture of them in order; (c) every choice of options '
        'given or left out; (d) every list of layers, of one side or both, drawn with render_layers by one context after '
        'every other list of a catalogue; model = the views of the board, the mirroring of the side, the painting order')
BOUNDS = {'quick': '(a) all sets of 9 files (outline, 3 top, 3 bottom, internal, drills) x 5 themes x 2 sizes, units '
                   'alternating; sets of <= 3 of 9 smaller than their units; sets of <= 3 of 14 files; (b) lists of <= 3 of 10 files; (c) 2^4 choices x 8 boards; (d) lists of <= 3 of 10, '
                   '9 x 9 catalogue',
          'thorough': '(a) the same x 4 sizes x 2 units; sets of <= 5 of 14 files; (b) lists of <= 3 of 14 files; (d) lists of <= 3 of 13, <= 2 after every list of the catalogue'}
ASSUMPTIONS = ('all files of a board are in the same units; the picture is as large as its first layer',
               'the outline is drawn by the first outline file; drills are in the picture of the copper when there is one',
               'pictures of a bottom with nothing on it are not mirrored')
NAMES = ['default', 'OSH Park', 'Blue', 'Transparent Copper', 'Transparent Multilayer']
# mils: flashes (x, y, size) and strokes (x0, y0, x1, y1, pen); a C pen or R pads
DOCS = {
    'gko': [('l', 0, 0, 200, 0, 10), ('l', 200, 0, 200, 150, 10), ('l', 200, 150, 60, 150, 10), ('l', 60, 150, 0, 90, 10),
            ('l', 0, 90, 0, 0, 10)],
    'gtl': [('r', 40, 30, 50, 30), ('c', 150, 100, 50), ('l', 40, 30, 150, 100, 16)],
    'gts': [('r', 40, 30, 60, 40), ('c', 150, 100, 60)],
    'gto': [('l', 20, 120, 120, 130, 14), ('c', 100, 60, 30)],
    'gbl': [('c', 60, 40, 60), ('r', 160, 120, 50, 30), ('l', 60, 40, 160, 40, 20)],
    'gbs': [('c', 60, 40, 72), ('r', 160, 120, 60, 40)],
    'gbo': [('l', 150, 20, 150, 70, 18), ('r', 40, 100, 40, 24)],
    'g1': [('l', 20, 20, 180, 60, 40)],
    'g2': [('l', 20, 130, 100, 130, 30), ('c', 170, 30, 40)],
    'gbr': [('r', 100, 70, 90, 60), ('c', 20, 20, 24)],
    'gtp': [('r', 40, 30, 40, 20), ('c', 120, 90, 40)],
    'gbp': [('c', 60, 40, 50), ('r', 160, 120, 40, 20)],
}
DRILL = [(60, 40, 30), (150, 100, 24), (40, 110, 20)]
FILES = dict(('board.' + e, e) for e in DOCS)
FILES['board.drl'] = 'drl'
CLASS = {'gko': 'outline', 'gtl': 'top', 'gts': 'topmask', 'gto': 'topsilk', 'gbl': 'bottom', 'gbs': 'bottommask',
         'gbo': 'bottomsilk', 'g1': 'internal', 'g2': 'internal', 'drl': 'drill', 'gbr': 'unknown', 'gtp': 'toppaste',
         'gbp': 'bottompaste'}
MAIN = ['gko', 'gtl', 'gts', 'gto', 'gbl', 'gbs', 'gbo', 'g1', 'drl']
REST = sorted(CLASS) + ['txt']
SIZES = [(64, 48), (40, 90), (120, 30), (33, 33), (3, 2)]
LIST = ['gtl', 'gts', 'gbl', 'gbs', 'gbo', 'g1', 'drl', 'gko', 'gbr', 'gtp', 'gto', 'g2', 'gbp']


VIEWS = [['gbl', 'drl', 'gbs', 'gbo'], ['gko', 'gbl', 'drl'], ['gtl', 'drl', 'gts'], ['gko', 'g1', 'g2', 'g1'], ['gtl', 'gbl', 'drl'],
         ['gbr', 'gbo'], ['drl', 'gts', 'gbs'], ['g2', 'gko', 'gtp'], ['gko', 'gtl', 'g1', 'gbl', 'drl', 'gbr']]


def cases(tier):
    quick = tier == 'quick'
    for n in range(0, len(MAIN) + 1):
        for k, combo in enumerate(combinations(MAIN, n)):
            for t, theme in enumerate(NAMES):
                for s in (0, 1) if quick else range(4):
                    for units in ([('in', 'mm')[(k + t + s) % 2]] if quick else ('in', 'mm')):
                        yield ['board', list(combo), theme, s, units]
    for n in (1, 2, 3):     # fewer pixels than millimetres
        for combo in combinations(MAIN, n):
            yield ['board', list(combo), 'default', 4, 'mm']
    for n in range(1, 4 if quick else 6):
        for k, combo in enumerate(combinations(REST, n)):
            yield ['board', list(combo), NAMES[k % 5], k // 5 % 4, 'in']
    for n in (1, 2, 3):
        for combo in product(LIST[:10] if quick else LIST, repeat=n):
            for theme in NAMES if n < 3 else NAMES[:1]:
                yield ['files', list(combo), theme]
    for n in (1, 2, 3):
        for k, combo in enumerate(product(LIST[:10] if quick else LIST, repeat=n)):
            for t, theme in enumerate(NAMES) if n < 3 else [(k % 5, NAMES[k % 5])]:
                yield ['layers', [], list(combo), theme, (k + t) % 4, ('in', 'mm')[k % 2]]
    for k, before in enumerate(VIEWS):
        for t, theme in enumerate(NAMES):
            for m, combo in enumerate(VIEWS if quick else VIEWS + list(product(LIST, repeat=2))):
                yield ['layers', list(before), list(combo), theme, (k + t + m) % 4, ('in', 'mm')[(k + m) % 2]]
    for given in product((0, 1), repeat=4):
        for combo in (['gtl'], ['gko', 'gtl', 'gbl'], ['gbl', 'drl'], ['gko', 'gts', 'gbs']):
            for kind in ('board', 'list'):
                yield ['options', combo, list(given), kind]


def num(v, units):
    """mils as the digits of the format 2:4 in inches or 3:4 in millimetres"""
    return '%d' % (v * 10 if units == 'in' else v * 254)


def text_of(kind, units):
    k = 1000.0 if units == 'in' else 1000 / 25.4
    if kind == 'txt':
        return 'a board\n'
    if kind == 'drl':
        out = ['M48', 'INCH,LZ' if units == 'in' else 'METRIC,LZ']
        tools = sorted(set(d for _, _, d in DRILL))
        out += ['T%dC%.4f' % (n + 1, d / k) for n, d in enumerate(tools)] + ['%']
        for n, d in enumerate(tools):
            out.append('T%d' % (n + 1))
            # kept zeros: all digits of 2:4 or 3:3 numbers
            out += [('X%06dY%06d' % ((x * 10, y * 10) if units == 'in' else (round(x * 25.4), round(y * 25.4))))
                    for x, y, e in DRILL if e == d]
        return '\n'.join(out + ['M30', ''])
    out = ['%FSLAX' + ('24Y24' if units == 'in' else '34Y34') + '*%', '%MOIN*%' if units == 'in' else '%MOMM*%']
    codes = {}
    body = []
    for o in DOCS[kind]:
        ap = {'c': 'C,%.6f' % (o[-1] / k), 'l': 'C,%.6f' % (o[-1] / k), 'r': 'R,%.6fX%.6f' % (o[-2] / k, o[-1] / k)}[o[0]]
        if ap not in codes:
            codes[ap] = 10 + len(codes)
            out.append('%%ADD%d%s*%%' % (codes[ap], ap))
        body.append('D%d*' % codes[ap])
        if o[0] == 'l':
            body.append('X%sY%sD02*' % (num(o[1], units), num(o[2], units)))
            body.append('X%sY%sD01*' % (num(o[3], units), num(o[4], units)))
        else:
            body.append('X%sY%sD03*' % (num(o[1], units), num(o[2], units)))
    return '\n'.join(out + body + ['M02*', ''])


def objects_of(kind, units):
    """objects and the extents of a picture that begins with them, in the units of the file: that of the places of
    Gerber commands, that of drill holes"""
    k = 1000.0 if units == 'in' else 1000 / 25.4
    objs, xs, ys = [], [], []
    if kind == 'drl':
        for x, y, d in DRILL:
            if units == 'mm':
                x, y = round(x * 25.4) * k / 1000, round(y * 25.4) * k / 1000
            objs.append(('drill', (x / k, y / k), d / k, 'dark'))
            xs += [(x - d / 2.0) / k, (x + d / 2.0) / k]
            ys += [(y - d / 2.0) / k, (y + d / 2.0) / k]
        return objs, ((min(xs), max(xs)), (min(ys), max(ys)))
    no = (0, 0, 0)
    for o in DOCS[kind]:
        if o[0] == 'l':
            objs.append(('line', (o[1] / k, o[2] / k), (o[3] / k, o[4] / k), ('C', o[5] / k, no), 'dark'))
            pts = [(o[1], o[2]), (o[3], o[4])]
        elif o[0] == 'c':
            objs.append(('flash', ('C', o[3] / k, no), (o[1] / k, o[2] / k), 'dark'))
            pts = [o[1:3]]
        else:
            objs.append(('flash', ('R', o[3] / k, o[4] / k, no), (o[1] / k, o[2] / k), 'dark'))
            pts = [o[1:3]]
        xs += [x / k for x, _ in pts]
        ys += [y / k for _, y in pts]
    return objs, ((min(xs), max(xs)), (min(ys), max(ys)))


def settings(theme, cls, internals):
    """(colour, alpha, inverted, mirrored); colours and alphas are the theme's taste, the rest is not"""
    from gerber.render.theme import THEMES
    t = THEMES[theme]
    if cls == 'internal':
        t.restart()
        s = [t.internal for _ in range(internals + 1)][-1]
        t.restart()
        return tuple(s.color), s.alpha, False, False
    s = getattr(t, cls, None)
    if s is None:
        return (0.0, 0.0, 0.0), 1.0, False, False
    mirrored = cls in ('bottom', 'bottommask', 'bottomsilk') and theme[:11] != 'Transparent'
    return tuple(s.color), s.alpha, cls in ('topmask', 'bottommask'), mirrored


def sides(kinds):
    """name of the picture -> kinds of files in painting order"""
    has = [k for k in kinds if k != 'txt']

    def some(*ks):
        return [k for k in ks if k in has]
    top = some('gtl', 'drl', 'gts', 'gto')
    bottom = some('gbl', 'drl', 'gbs', 'gbo')
    copper = some('gbl', 'g2', 'g1', 'gtl')
    if 'gko' in has:
        top, bottom, copper = ['gko'] + top, ['gko'] + bottom, ['gko'] + copper + some('drl')
    return {'top': top, 'bottom': bottom, 'copper': copper}


def check_picture(data, kinds, theme, units, scale, whole, label):
    frame, total, layers, internals = objects_of(kinds[0], units)[1], None, [], 0
    styles = []
    for k in kinds:
        styles.append(settings(theme, CLASS[k], internals))
        internals += CLASS[k] == 'internal'
    sided = [s[3] for k, s in zip(kinds, styles) if CLASS[k] in ('top', 'topmask', 'topsilk', 'bottom', 'bottommask',
                                                                  'bottomsilk')]
    mirror = whole and bool(sided) and all(sided)
    for k, (col, alpha, inv, mir) in zip(kinds, styles):
        f = R.Frame(frame, scale, mir or mirror)
        sure, on = R.picture(objects_of(k, units)[0], f, inv)
        total = V.both(total, sure)
        layers.append((on, col, alpha))
    from gerber.render.theme import THEMES
    bg = tuple(THEMES[theme].background.color)
    if f.H < 4:     # too small for any pixel to be sure
        total = [0] * len(total)
    V.compare(cropped(R.read_png(data), f), f, total, None, V.blend(layers, bg), '\n'.join(text_of(k, units) for k in kinds), label)


def cropped(pic, f):
    """a picture of a whole number of pixels may be one larger for the rounding of its bounds"""
    w, h, px = pic
    w -= w == f.W + 1 and abs(f.px[0] - f.W) < 1e-6
    h -= h == f.H + 1 and abs(f.px[1] - f.H) < 1e-6
    return w, h, px


def command(args, cwd):
    from gerber.__main__ import main
    from gerber.render.theme import THEMES
    for t in THEMES.values():   # a new process
        t.restart()
    argv, here = sys.argv, os.getcwd()
    sys.argv = ['gerber-render'] + args
    os.chdir(cwd)
    try:
        main()
    except SystemExit as e:
        raise Violation('gerber-render %s ends with %r' % (' '.join(args), e.code))
    finally:
        sys.argv = argv
        os.chdir(here)


def lay_out(d, kinds, units):
    os.mkdir(d)
    for k in kinds:
        with open(os.path.join(d, 'board.' + k), 'w') as f:
            f.write(text_of(k, units))
    for name in ('.board.gtl', '.gko', 'Thumbs.db'):    # no files of the board
        with open(os.path.join(d, name), 'w') as f:
            f.write(text_of('gbl', units))


def read(path):
    with open(path, 'rb') as f:
        return f.read()


def expected_size(kinds, units, w, h):
    boxes = [objects_of(k, units)[1] for k in kinds]
    x = max(b[0][1] for b in boxes) - min(b[0][0] for b in boxes)
    y = max(b[1][1] for b in boxes) - min(b[1][0] for b in boxes)
    scale = min(w / x, h / y)
    return math.floor(scale) if scale > 1 else scale


def run(case, ctx):
    root = os.path.join(ctx.scratch, 'p29')
    shutil.rmtree(root, ignore_errors=True)
    os.mkdir(root)
    try:
        return {'board': run_board, 'files': run_files, 'options': run_options, 'layers': run_layers}[case[0]](case, ctx, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run_board(case, ctx, root):
    _, kinds, theme, size, units = case
    w, h = SIZES[size]
    lay_out(os.path.join(root, 'b'), kinds, units)
    command(['b', '-t', theme, '--width', str(w), '--height', str(h), '-o', os.path.join(root, 'pic')], root)
    want = dict((n, ks) for n, ks in sides(kinds).items() if ks)
    got = sorted(n for n in os.listdir(root) if n != 'b')
    ctx.trace()
    if got != sorted('pic.%s.png' % n for n in want):
        raise Violation('pictures of a board with %s' % kinds, sorted(want), got)
    out = []
    for name in sorted(want):
        ks = want[name]
        th = 'Transparent Multilayer' if name == 'copper' else theme
        data = read(os.path.join(root, 'pic.%s.png' % name))
        check_picture(data, ks, th, units, expected_size(ks, units, w, h), True,
                      ' of the %s of a board with %s, theme %s' % (name, kinds, theme))
        out.append(str(digest(data.hex())))
    return ' '.join(out)


def run_files(case, ctx, root):
    _, kinds, theme = case
    lay_out(os.path.join(root, 'b'), sorted(set(kinds)), 'in')
    command([os.path.join('b', 'board.' + k) for k in kinds] + ['-t', theme, '-o', 'pic'], root)
    got = sorted(n for n in os.listdir(root) if n != 'b')
    ctx.trace()
    if got != ['pic.png']:
        raise Violation('picture of the files %s' % kinds, ['pic.png'], got)
    data = read(os.path.join(root, 'pic.png'))
    check_picture(data, kinds, theme, 'in', 300, False, ' of the files %s, theme %s' % (kinds, theme))
    return digest(data.hex())


def run_layers(case, ctx, root):
    from gerber import load_layer
    from gerber.render.cairo_backend import GerberCairoContext
    from gerber.render.theme import THEMES
    _, before, kinds, theme, size, units = case
    lay_out(os.path.join(root, 'b'), sorted(set(kinds + before)), units)
    for t in THEMES.values():
        t.restart()
    w, h = SIZES[size]
    c = GerberCairoContext()
    if before:
        c.render_layers([load_layer(os.path.join(root, 'b', 'board.' + k)) for k in before], os.path.join(root, 'first.png'),
                        theme=THEMES[theme], max_width=h, max_height=w)
    path = os.path.join(root, 'pic.png')
    c.render_layers([load_layer(os.path.join(root, 'b', 'board.' + k)) for k in kinds], path, theme=THEMES[theme],
                    max_width=w, max_height=h)
    ctx.trace()
    data = read(path)
    check_picture(data, kinds, theme, units, expected_size(kinds, units, w, h), True,
                  ' of the layers %s after those of %s, theme %s' % (kinds, before, theme))
    return digest(data.hex())


def run_options(case, ctx, root):
    _, kinds, (out, theme, size, loud), kind = case
    lay_out(os.path.join(root, 'b'), kinds, 'in')
    os.mkdir(os.path.join(root, 'to'))
    args = ['b'] if kind == 'board' else [os.path.join('b', 'board.' + k) for k in kinds]
    args += ['-o', os.path.join('to', 'my.board')] if out else []
    args += ['--theme', 'OSH Park', '-b', 'cairo'] if theme else []
    args += ['--width', '50', '--height', '70'] if size else []
    args += ['-v'] if loud else []
    command(args, root)
    stem = os.path.join(root, 'to', 'my.board') if out else os.path.join(root, 'out')
    th = 'OSH Park' if theme else 'default'
    views = dict((n, ks) for n, ks in sides(kinds).items() if ks) if kind == 'board' else {'': kinds}
    ctx.trace()
    for name in sorted(views):
        data = read(stem + ('.' + name if name else '') + '.png')
        ks = views[name]
        if kind == 'list':
            check_picture(data, ks, th, 'in', 300, False, ' of the files %s, options %s' % (kinds, case[2]))
        elif size:
            check_picture(data, ks, 'Transparent Multilayer' if name == 'copper' else th, 'in',
                          expected_size(ks, 'in', 50, 70), True, ' of the %s of %s, options %s' % (name, kinds, case[2]))
        else:   # only the size of the large pictures
            f = R.Frame(objects_of(ks[0], 'in')[1], 1)
            s = expected_size(ks, 'in', 1920, 1080)
            want = tuple(int(math.ceil(v * s - 1e-6)) for v in f.px)
            got = struct.unpack('>II', data[16:24])
            if want != got:
                raise Violation('size of the %s picture of %s, options %s' % (name, kinds, case[2]), want, got)
    return 'ok'
