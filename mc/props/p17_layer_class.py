"""P17: the class guessed for a layer is that of the first entry of the hint table which fits its name or content."""
from itertools import product
import os

from mc.core import Violation

PID = 'P17'
LEVEL = 'exploration'
RULE = ('(a) every extension and every name of the hint table (and neutral ones) x board name x layout of the file name '
        'x directory x letter case; (b) every pair of a name hint and an extension; (c) user-made hints (regular '
        'expression, content) added at either end of the table x every file; also two at once; (d) every history of writing, '
        'changing and removing the file and adding and removing hints, the class asked after every step; (e) the line that shows '
        'the class after n others; the class must be that of the first entry of the table that fits; load_layer must give the same class for the same file; outcome = (file, class)')
BOUNDS = {'quick': '(a) 14 layouts x 9 boards x 5 directories x 3 cases with all hints; (b) all pairs; (c) 9 hints x 60 files, pairs of 9; (d) histories <= 3 of 9 events; (e) n <= 3000',
          'thorough': '(b) with 9 boards and 5 directories; (d) histories <= 4'}
ASSUMPTIONS = ('a name hint fits when it is a whole component of the base name, components being separated by "." or "-", '
               'and the "." in the hint standing for any character',)
BOARDS = ['', 'board', 'my_board', 'rev2', 'Widget-v1', 'a.b', 'board top', 'topaz', 'x_bottom_y']
DIRS = ['', '/nonexistent/dir', 'top', '/nonexistent/gerber.gbl/art', 'bottommask-silk/']
CASES = {'same': lambda s: s, 'upper': lambda s: s.upper(), 'lower': lambda s: s.lower()}
NEUTRAL = ['', 'zzz', 'gbr', 'pho', 'art', 'txt', 'ger']
GERBER = '%FSLAX24Y24*%\n%MOIN*%\n%ADD10C,0.5*%\nD10*\nX0Y0D03*\nM02*\n'
USER = [('regex', 'topmask', r'cut.*line'), ('regex', 'outline', r'^board'), ('regex', 'bottom', r'\.gtl$'),
        ('content', 'bottomsilk', 'G04 Layer name: Bottom'), ('content', 'outline', 'X0Y0D03'),
        ('content', 'top', 'absent'), ('ext', 'drawing', 'gbr'), ('name', 'toppaste', 'board'), ('ext', 'internal', 'gtl')]


def fits_name(base, hint):
    """hint is one whole component of base, with at most one component after it"""
    base, hint = base.lower(), hint.lower()
    n = len(hint)
    for i in range(len(base) - n + 1):
        seg = base[i:i + n]
        if not all(a == b or b == '.' for a, b in zip(seg, hint)):
            continue
        before, after = base[:i], base[i + n:]
        if before and before[-1] not in '.-':
            continue
        if any(not (c.isalnum() or c in '_.-') for c in before):
            continue
        if after and (after[0] not in '.-' or any(not (c.isalnum() or c == '_') for c in after[1:])):
            continue
        return True
    return False


def guess(path, hints, content=None):
    import re
    if content is not None:
        for line in content.splitlines():
            for layer, ext, names, regex, cont in hints:
                if any(c.lower() in line.lower() for c in cont):
                    return layer
    base = os.path.basename(path)
    stem, ext = os.path.splitext(base.lower())
    ext = ext[1:]
    for layer, exts, names, regex, cont in hints:
        if regex and re.search(regex, base, re.I):
            return layer
        if ext in exts or any(fits_name(stem, n) for n in names):
            return layer
    return 'unknown'


def layouts(board, hint, kind):
    if kind == 'ext':
        yield '%s.%s' % (board, hint)
        if board:
            yield '%s-zzz.%s' % (board, hint)
        return
    for e in ('gbr', 'pho', 'zzz'):
        if not board:
            yield '%s.%s' % (hint, e)
        else:
            for sep in '-._ ':
                yield '%s%s%s.%s' % (board, sep, hint, e)
                yield '%s%s%s.%s' % (hint, sep, board, e)
            yield '%s%s.%s' % (board, hint, e)
    yield hint if not board else '%s-%s' % (board, hint)


# copied from the documentation of the library: the checks must notice when an entry disappears
def vocabulary():
    return ([(e, 'ext') for h in HINTS for e in h[1]] + [(n, 'name') for h in HINTS for n in h[2]] +
            [(e, 'ext') for e in NEUTRAL])


HINTS = [
    ('top', ['gtl', 'cmp', 'top'], ['art01', 'top', 'GTL', 'layer1', 'soldcom', 'comp', 'F.Cu']),
    ('bottom', ['gbl', 'sld', 'bot', 'sol', 'bottom'],
     ['art02', 'bottom', 'bot', 'GBL', 'layer2', 'soldsold', 'B.Cu']),
    ('internal', ['in', 'gt1', 'gt2', 'gt3', 'gt4', 'gt5', 'gt6', 'g1', 'g2', 'g3', 'g4', 'g5', 'g6'],
     ['art', 'internal', 'pgp', 'pwr', 'gnd', 'ground', 'gp1', 'gp2', 'gp3', 'gp4', 'gt5', 'gp6', 'In1.Cu', 'In2.Cu',
      'In3.Cu', 'In4.Cu', 'group3', 'group4', 'group5', 'group6', 'group7', 'group8']),
    ('topsilk', ['gto', 'sst', 'plc', 'ts', 'skt', 'topsilk'], ['sst01', 'topsilk', 'silk', 'slk', 'sst', 'F.SilkS']),
    ('bottomsilk', ['gbo', 'ssb', 'pls', 'bs', 'skb', 'bottomsilk'],
     ['bsilk', 'ssb', 'botsilk', 'bottomsilk', 'B.SilkS']),
    ('topmask', ['gts', 'stc', 'tmk', 'smt', 'tr', 'topmask'],
     ['sm01', 'cmask', 'tmask', 'mask1', 'maskcom', 'topmask', 'mst', 'F.Mask']),
    ('bottommask', ['gbs', 'sts', 'bmk', 'smb', 'br', 'bottommask'],
     ['sm', 'bmask', 'mask2', 'masksold', 'botmask', 'bottommask', 'msb', 'B.Mask']),
    ('toppaste', ['gtp', 'tm', 'toppaste'], ['sp01', 'toppaste', 'pst', 'F.Paste']),
    ('bottompaste', ['gbp', 'bm', 'bottompaste'], ['sp02', 'botpaste', 'bottompaste', 'psb', 'B.Paste']),
    ('outline', ['gko', 'outline'], ['BDR', 'border', 'out', 'outline', 'Edge.Cuts']),
    ('ipc_netlist', ['ipc'], []),
    ('drawing', ['fab'], ['assembly drawing', 'assembly', 'fabrication', 'fab drawing', 'fab']),
]
HINTS = [(l, e, n, '', []) for l, e, n in HINTS]
FILES = ['board.gtl', 'board-F.Cu.gbr', 'cut_line.gbl', 'x.gbr', 'BOARD.GBR', 'board.zzz', 'cutline-top.gbr', 'a.gtl',
         'B.GTL', 'noext', 'board.txt', 'my-board.gbs', 'in.gbr', 'board-B_Cu.gbr', 'group3.pho', 'outline.gbr']
TEXTS = ['none', 'plain', 'named', 'NAMED', 'late']
EVENTS = TEXTS + ['+regex', '+content', '+ext', '+both']
DELAYS = (0, 1, 2, 5, 9, 10, 19, 20, 21, 49, 50, 51, 99, 100, 101, 127, 128, 255, 256, 499, 500, 999, 1000, 1001, 3000)


def text_named(t):
    if t in ('named', 'NAMED'):
        text = 'G04 Layer name: Bottom*\n' + GERBER
        return text.replace('Layer name', 'LAYER NAME') if t == 'NAMED' else text
    if t == 'late':
        return GERBER.replace('M02*', 'G04 Layer name: Bottom*\nM02*')
    return GERBER


def as_entry(kind, layer, value):
    return (layer, [value] if kind == 'ext' else [], [value] if kind == 'name' else [],
            value if kind == 'regex' else '', [value] if kind == 'content' else [])


def run_history(case, ctx):
    from gerber import layers
    _, f, seq = case
    path = os.path.join(ctx.scratch, f)
    table = {'+regex': as_entry('regex', 'topmask', 'b.*o'), '+content': as_entry('content', 'bottomsilk', 'Layer name: Bottom'),
             '+ext': as_entry('ext', 'drawing', 'gbr'), '+both': ('toppaste', ['zzz', 'gtl'], ['board', 'cut_line'], '', ['ADD10', 'M02'])}
    mine, text, out = [], None, []
    saved = list(layers.hints)
    try:
        for e in seq:
            if e in table:
                if e in mine:
                    del layers.hints[mine.index(e)]
                    mine.remove(e)
                else:
                    mine.insert(0, e)
                    h = table[e]
                    layers.hints.insert(0, layers.Hint(layer=h[0], ext=h[1], name=h[2], regex=h[3], content=h[4]))
            elif e == 'none':
                if text is not None:
                    os.remove(path)
                text = None
            else:
                text = text_named(e)
                with open(path, 'w') as h:
                    h.write(text)
            want = guess(path, [table[m] for m in mine] + HINTS, text)
            got = layers.guess_layer_class(path)
            ctx.transition(tuple(seq), e, want)
            if want != got:
                raise Violation('class of %r after %s' % (f, seq), want, got)
            out.append(got)
        ctx.trace()
        return repr(out)
    finally:
        layers.hints[:] = saved
        if text is not None:
            os.remove(path)


def run_late(case, ctx):
    from gerber import layers
    _, f, n, at = case
    body = GERBER.split('M02')[0].rstrip('\n').split('\n')
    lines = (body + ['G04 line %d*' % k for k in range(n)] if at == 'body' else ['G04 line %d*' % k for k in range(n)] + body)
    pos = len(lines) if at == 'body' else n
    text = '\n'.join(lines[:pos] + ['G04 Layer name: Bottom*'] + lines[pos:] + ['M02*', ''])
    path = os.path.join(ctx.scratch, f)
    entry = as_entry('content', 'bottomsilk', 'Layer name: Bottom')
    saved = list(layers.hints)
    try:
        with open(path, 'w') as h:
            h.write(text)
        layers.hints.append(layers.Hint(layer=entry[0], ext=[], name=[], regex='', content=entry[4]))
        got = [layers.guess_layer_class(path), layers.load_layer(path).layer_class, layers.load_layer_data(text, path).layer_class]
        if got != ['bottomsilk'] * 3:
            raise Violation('class of %r which is shown after %d lines' % (f, n), ['bottomsilk'] * 3, got)
        return repr(got)
    finally:
        layers.hints[:] = saved
        os.remove(path)


def cases(tier):
    dirs, boards = DIRS, BOARDS
    for (hint, kind), board, d, c in product(vocabulary(), boards, range(len(dirs)), sorted(CASES)):
        yield ['one', hint, kind, board, d, c]
    names = sorted(set(n for h in HINTS for n in h[2]))
    exts = sorted(set(e for h in HINTS for e in h[1])) + NEUTRAL
    for n in names:
        for e in exts:
            for board in [''] if tier == 'quick' else boards:
                yield ['pair', n, e, board]
    for k, at, f, t in product(range(len(USER)), ('front', 'back'), FILES, TEXTS):
        yield ['user', k, at, f, t]
    for k, k2, at in product(range(len(USER)), range(len(USER)), ('front', 'back')):
        for f, t in product(FILES[:8], TEXTS):
            yield ['user', [k, k2], at, f, t]
    for n in range(1, 4 if tier == 'quick' else 5):
        for seq in product(EVENTS, repeat=n):
            for f in ('board.gtl', 'x.gbr') if n > 2 else FILES[:6]:
                yield ['hist', f, list(seq)]
    for f, n, at in product(('board.gtl', 'x.zzz'), DELAYS, ('body', 'head')):
        yield ['late', f, n, at]


def run(case, ctx):
    from gerber import layers
    if case[0] == 'one':
        _, hint, kind, board, d, c = case
        out = []
        for f in layouts(board, hint, kind):
            path = os.path.join(DIRS[d], CASES[c](f))
            want, got = guess(path, HINTS), layers.guess_layer_class(path)
            if want != got:
                raise Violation('class of %r' % path, want, got)
            out.append((path, got))
        return repr(out)
    if case[0] == 'pair':
        _, n, e, board = case
        out = []
        for d in DIRS if board else ['']:
            for f in (['%s.%s' % (n, e)] if not board else ['%s-%s.%s' % (board, n, e), '%s.%s.%s' % (board, n, e)]):
                path = os.path.join(d, f)
                want, got = guess(path, HINTS), layers.guess_layer_class(path)
                if want != got:
                    raise Violation('class of %r' % path, want, got)
                out.append((path, got))
        return repr(out)
    if case[0] == 'hist':
        return run_history(case, ctx)
    if case[0] == 'late':
        return run_late(case, ctx)
    _, ks, at, f, t = case
    entries = [as_entry(*USER[k]) for k in (ks if isinstance(ks, list) else [ks])]
    hints = entries + HINTS if at == 'front' else HINTS + entries
    text = text_named(t)
    path = os.path.join(ctx.scratch if t != 'none' else '/nonexistent/dir', f)
    if t != 'none':
        with open(path, 'w') as h:
            h.write(text)
    h = [layers.Hint(layer=e[0], ext=e[1], name=e[2], regex=e[3], content=e[4]) for e in entries]
    saved = list(layers.hints)
    try:
        if at == 'front':
            layers.hints[:0] = h
        else:
            layers.hints.extend(h)
        want = guess(path, hints, text if t != 'none' else None)
        got = layers.guess_layer_class(path)
        if want != got:
            raise Violation('class of %r with content\n%s\nand hint %s' % (f, text if t != 'none' else None, h), want, got)
        if t != 'none':
            layer = layers.load_layer(path)
            if layer.layer_class != want or layer.filename != path or len(layer.primitives) != 1:
                raise Violation('loaded layer of %r' % f, (want, path), (layer.layer_class, layer.filename))
            layer = layers.load_layer_data(text, path)
            if layer.layer_class != want or layer.filename != path:
                raise Violation('layer of the data of %r' % f, (want, path), (layer.layer_class, layer.filename))
        return repr((f, t, got))
    finally:
        layers.hints[:] = saved
        if t != 'none':
            os.remove(path)
