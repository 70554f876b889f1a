# -*- coding: utf-8 -*-
"""Alphabet of Excellon commands, reachable model states, heads, layouts."""
from collections import deque
from fractions import Fraction

from . import emodel as E

HEADS = {
    'inLZ24': [['M48'], ['FF', 2, 4], ['u', 'INCH', 'LZ', None]],
    'inTZ24': [['M48'], ['u', 'INCH', 'TZ', [2, 4]]],
    'inTZff': [['M48'], ['FF', 2, 5], ['u', 'INCH', 'TZ', None]],
    'mmTZ33': [['M48'], ['u', 'METRIC', 'TZ', [3, 3]]],
    'mmLZ33': [['M48'], ['u', 'METRIC', 'LZ', [3, 3]]],
    'mmTZ43': [['M48'], ['u', 'METRIC', 'TZ', [4, 3]]],
    'mmLZ42': [['M48'], ['u', 'METRIC', 'LZ', [4, 2]]],
    'inLZ26': [['M48'], ['FF', 2, 6], ['u', 'INCH', 'LZ', None]],
    'mmTZ37': [['M48'], ['FF', 3, 7], ['u', 'METRIC', 'TZ', None]],
    'inTZfm': [['M48'], ['M72'], ['u', 'INCH', 'TZ', None], ['FMAT', 2]],
    'mmTZfm': [['M48'], ['FMAT', 1], ['M71'], ['u', 'METRIC', 'TZ', None]],
    # other commands of a header mean nothing to the holes
    'mmLZx': [['M48'], ['raw', 'VER,1'], ['raw', 'FMAT,2'], ['raw', 'ATC,ON'], ['u', 'METRIC', 'LZ', [3, 3]], ['raw', 'R,T'],
              ['raw', 'T01,OFF'], ['raw', 'TCST,OFF'], ['ICI', 'OFF'], ['raw', 'DETECT,ON']],
    # formats that only the caller knows
    'inTZ': [['M48'], ['u', 'INCH', 'TZ', None]],
    'mmLZ': [['M48'], ['u', 'METRIC', 'LZ', None]],
    'mm': [['M48'], ['u', 'METRIC', None, None]],
    'M72': [['M48'], ['M72']],
    'bare': [['%'], ['M48'], ['M72']],
    'M95': [['M48'], ['VER'], ['M71']],
}
HEADS['M95'][1] = ['raw', 'VER,1']
TOOLS = {1: 16, 2: 32, 3: 0}
END = {'M95': ['M95']}


def head(name, tools=(1, 2), settings_fmt=None):
    return (HEADS[name] + [['T', n, TOOLS[n]] for n in tools] + [END.get(name, ['%'])])


class Menu(object):
    def __init__(self, box=1, tools=(1, 2), inc=True):
        self.box, self.tools, self.inc = box, tools, inc

    def points(self, d):
        """(x, y) words whose target stays on the grid."""
        B, S = 4 * self.box, 4
        vals = [None] + list(range(-B, B + 1, S))
        for x in vals:
            for y in vals:
                if x is None and y is None:
                    continue
                if self.inside(d.moved(x, y)):
                    yield x, y

    def inside(self, p):
        return all(0 <= v <= 4 * self.box for v in p)

    def events(self, d):
        ev = []
        pts = list(self.points(d))
        if not d.down:
            for n in self.tools:
                ev.append(['t', n])
            ev.append(['t', 0])
            for x, y in pts:
                ev.append(['G00', x, y])
        # where none was selected the first tool is used
        ready = d.tool is not None or 1 in self.tools
        if d.mode == 'DRILL' and ready and not d.down:
            for x, y in pts:
                ev.append(['xy', x, y])
            for n in (1, 2) if d.tool is not None else ():
                for dx, dy in ((4, None), (None, 4), (4, -4), (-4, None)):
                    if self.inside((d.pos[0] + n * (dx or 0), d.pos[1] + n * (dy or 0))):
                        ev.append(['R', n, dx, dy])
            if d.notation == 'abs':
                B = 4 * self.box
                for a in ((0, 0), (B, 0), (None, B), (0, None)):
                    for b in ((B, B), (None, 0), (B, None)):
                        ev.append(['G85'] + list(a) + list(b))
            else:
                for x, y in pts:
                    for dx, dy in ((4, 4), (None, 4), (-4, None), (0, -4)):
                        s = d.moved(x, y)
                        if self.inside((s[0] + (dx or 0), s[1] + (dy or 0))):
                            ev.append(['G85', x, y, dx, dy])
            if d.tool is not None and d.tool + 1 in self.tools:
                ev.append(['M00'])
        if d.mode in ('ROUT', 'LINEAR') and ready:
            if not d.down:
                ev.append(['M15'])
                for x, y in pts[::2]:
                    ev.append(['G01', x, y])
            else:
                for x, y in pts:
                    ev.append(['G01', x, y])
                ev.append(['M16'])
                ev.append(['M17'])
        if d.mode == 'LINEAR' and ready:
            for x, y in pts:
                ev.append(['xy', x, y])
        if d.mode == 'ROUT' and not d.down:
            for x, y in pts[::3]:
                ev.append(['xy', x, y])
        if d.mode != 'DRILL':
            ev.append(['G05'])
        if self.inc:
            ev.append(['ICI', 'ON' if d.notation == 'abs' else 'OFF'])
            ev.append(['G90'])
            ev.append(['G91'])
        ev.append([';', ' a comment X1Y1'])
        return ev

    def probe(self, d):
        """Commands whose hits expose tool, position, notation, mode and depth."""
        d = d.clone()
        out = []

        def do(c):
            out.append(c)
            d.apply(c)
        if d.tool is None:
            do(['t', 1])
        if d.mode == 'DRILL':
            do(['xy', None, 4])
            do(['R', 1, 4, 4])
        elif d.mode == 'LINEAR':
            do(['xy', 4, None])
            if not d.down:
                do(['M15'])
            do(['xy', None, 4])
            do(['M16'])
        else:
            if not d.down:
                do(['M15'])
            do(['G01', 4, None])
            do(['M16'])
        do(['G05'])
        do(['xy', 8, None])
        do(['t', 2])
        do(['xy', None, 8])
        return out


_closure = {}


def closure(menu, cmds):
    """[(canon, shortest trace, state)] of every model state reachable from the header."""
    key = (menu.box, menu.tools, menu.inc, repr(cmds))
    if key in _closure:
        return _closure[key]
    start = E.interpret(cmds)
    seen = {start.canon()}
    out = [(start.canon(), [], start)]
    queue = deque(out)
    while queue:
        canon, trace, d = queue.popleft()
        for ev in menu.events(d):
            n = d.clone()
            n.apply(ev)
            n.hits = []
            c = n.canon()
            if c not in seen:
                seen.add(c)
                item = (c, trace + [ev], n)
                out.append(item)
                queue.append(item)
    _closure[key] = out
    return out


def sequences(menu, d, depth):
    if depth == 0:
        yield []
        return
    for ev in menu.events(d):
        n = d.clone()
        n.apply(ev)
        for rest in sequences(menu, n, depth - 1):
            yield [ev] + rest


STYLES = {
    'plain': E.Style(), 'decimal': E.Style(decimal=True), 'crlf': E.Style(eol='\r\n'), 'blank': E.Style(blank=True),
    'split': E.Style(split=True), 'short': E.Style(short=True), 'indent': E.Style(indent=True),
    'comments': E.Style(comments=True), 'eagle': E.Style(dialect='eagle'), 'feeds': E.Style(dialect='feeds'),
    'mixed': E.Style(decimal=True, split=True, indent=True, short=True), 'plus': E.Style(plus=True),
    'plusdec': E.Style(plus=True, decimal=True),
}

# pieces of drill programs, for documents
PIECES = {
    'holes': [['t', 1], ['xy', 0, 0], ['xy', 4, None], ['xy', None, 8], ['xy', -4, -4]],
    'holes2': [['t', 2], ['xy', 8, 8], ['xy', 8, 8], ['xy', 12, 4]],
    'repeat': [['t', 1], ['xy', 4, 8], ['R', 3, 4, None], ['R', 1, None, -4], ['R', 2, 4, 4]],
    'g85': [['t', 2], ['xy', 0, 0], ['G85', 4, 4, 8, 8], ['G85', None, 0, 8, None], ['xy', None, 4]],
    'rout': [['t', 1], ['G00', 0, 0], ['M15'], ['G01', 8, None], ['xy', None, 8], ['xy', 0, 0], ['M16'], ['G05']],
    'rout2': [['t', 2], ['G00', 12, 4], ['M15'], ['G01', 12, 12], ['M17'], ['G00', 4, 4], ['M15'], ['G01', 8, 4],
              ['M16'], ['G05'], ['xy', 4, 4]],
    'rout3': [['t', 1], ['G00', 4, 4], ['M15'], ['G01', 4, 8], ['M16'], ['t', 2], ['M15'], ['G01', 8, 8], ['M16'],
              ['G05']],
    'inc': [['t', 1], ['xy', 4, 4], ['ICI', 'ON'], ['xy', 4, None], ['xy', -8, 4], ['R', 2, 4, 4], ['ICI', 'OFF'],
            ['xy', 12, 0]],
    'g91': [['t', 2], ['xy', 8, 8], ['G91'], ['xy', None, 4], ['xy', -4, -8], ['R', 2, 4, None], ['G85', 4, 4, -4, None], ['ICI', 'OFF'],
            ['xy', 4, 0], ['ICI', 'ON'], ['xy', 4, 4], ['G90'], ['xy', 8, 4]],
    'next': [['t', 1], ['xy', 4, 0], ['M00'], ['xy', 8, 0]],
    'zero': [['t', 2], ['xy', 0, 0], ['G85', 4, 0, 4, 0], ['xy', 0, 0]],
    'routg85': [['t', 1], ['G00', 0, 0], ['M15'], ['G01', 8, None], ['M16'], ['G05'], ['xy', 12, 8],
                ['G85', 12, 0, 12, 8], ['xy', 0, 4]],
    'g85rout': [['t', 2], ['G85', 12, 0, 12, 8], ['G00', 0, 0], ['M15'], ['G01', 8, None], ['M16'], ['G00', 8, 8],
                ['M15'], ['G01', 8, 4], ['M17'], ['G05'], ['G85', 0, 4, 8, 4]],
    # routed segments without length
    'routdot': [['t', 1], ['G00', 4, 4], ['M15'], ['G01', 4, 4], ['xy', 8, 4], ['xy', 8, None], ['M16'], ['G05'], ['xy', 12, 4]],
    # commands without any effect on the holes, also between those of a routing move
    'neutral': [['raw', 'G93X0Y0'], ['t', 1], ['raw', 'S120'], ['raw', 'F20'], ['xy', 4, 4], ['raw', 'M47,T1 X1Y2 INCH METRIC,LZ'],
                ['xy', 8, None], ['raw', 'G41'], ['G00', 0, 0], ['raw', 'F35'], ['M15'], ['raw', 'G42'], ['G01', 8, None],
                ['raw', 'G40'], ['xy', None, 8], ['M16'], ['G05'], ['raw', 'M97,T2 text'], ['xy', 12, 0]],
    # tools that are selected with a compensation index, or nowhere defined
    'comp': [['t', 2, 1], ['xy', 4, 8], ['t', 1, 12], ['xy', 8, 12]],
    'undef': [['t', 48], ['xy', 0, 8], ['t', 1], ['xy', 4, 12], ['t', 98], ['xy', 8, 0], ['t', 48], ['xy', 8, 4]],
    'zerosize': [['t', 3], ['xy', 8, 4], ['G85', 4, 4, 0, 8], ['xy', None, 0]],
    'end': [['t', 2], ['xy', 8, 4], ['M30', 12, 4]],
    'endtool': [['t', 0], ['t', 2], ['xy', 4, 12], ['t', 0]],
}


# the body begins before the header is ended: the first tool is used until routing starts
OPEN = {
    'holes': [['xy', 4, 4], ['xy', None, 8], ['xy', 8, None]],
    'slots': [['G85', 0, 4, 8, 4], ['G85', None, 8, 4, None], ['xy', 0, 0]],
    'inc': [['ICI', 'ON'], ['xy', 4, 4], ['G85', 4, None, None, 4], ['xy', None, -4], ['xy', -8, -4], ['ICI', 'OFF']],
    'rout': [['G00', 4, 0], ['M15'], ['G01', 8, 4], ['M16'], ['G05'], ['t', 2], ['xy', 0, 8]],
    'down': [['G01', 8, 4], ['M15'], ['xy', 4, 12], ['M17'], ['t', 2], ['G00', 0, 0], ['G05'], ['G85', 4, 4, 4, 8]],
    'end': [['%'], ['t', 2], ['xy', 12, 4], ['R', 2, 4, None], ['M00']],
}


def open_document(hname, pieces):
    cmds = HEADS[hname] + [['T', n, TOOLS[n]] for n in (1, 2, 3)]
    for p in pieces:
        cmds = cmds + (OPEN[p] if p != 'end' or ['%'] not in cmds[1:] else OPEN[p][1:-1])
    return cmds + [['M30']]


def document(hname, pieces, tools=(1, 2)):
    cmds = head(hname, tuple(tools) + (3,) if 'zerosize' in pieces else tools)
    for p in pieces:
        cmds = cmds + PIECES[p]
    return cmds + [['M30']]


LONG = ('tools', 'gaps', 'fritzing', 'repeat', 'repeat2', 'holes', 'slots', 'route', 'far', 'farslots')
LENGTHS = (1, 2, 3, 5, 7, 8, 9, 10, 11, 12, 16, 19, 20, 21, 32, 33, 50, 64, 65, 98, 99)


def longs(quick):
    for kind in LONG:
        for h in ('inTZ24', 'mmLZ33', 'mmTZ37') if quick else \
                ('inTZ24', 'mmLZ33', 'inLZ26', 'mmTZ37', 'inLZ24', 'mmTZ33', 'inTZff', 'mmLZ42'):
            for n in LENGTHS if quick else range(1, 100):
                yield kind, h, n


def long_document(kind, h, n):
    """(tool 11 and every 11th after it have size zero) documents with many tools, holes or repeats, or with wide numbers"""
    a, b = E.interpret(HEADS[h]).fmt
    most = 4 * (10 ** a - 1)    # in quarters
    last = Fraction(4, 10 ** b)     # the smallest step
    if kind == 'tools':
        tools = list(range(1, n + 1))
    elif kind == 'gaps':
        tools = [n] + [t for t in ((n * 7) % 99 + 1, (n * 3) % 50 + 1, 100 - n) if t != n]
        tools = [t for k, t in enumerate(tools) if t not in tools[:k]]
    elif kind == 'fritzing':    # numbers of three digits
        tools = [100 + k for k in range(n)] + [2, 999]
    else:
        tools = [1, 2]
    cmds = HEADS[h] + [['T', t, 8 * (t % 11)] for t in tools] + [END.get(h, ['%'])]
    if kind == 'fine':
        # numbers finer than the format, which only explicit decimal points can state
        step = Fraction(4, 10 ** (b + 1)) * n
        return cmds + [['t', 1], ['xy', step, 4 - step], ['xy', -step * 10, None], ['R', 3, step * 3, -step], ['R', 1, None, 4 + step],
                       ['t', 2], ['G85', step * 7, -step, None, 8 + step], ['G00', 0, step * 9], ['M15'], ['G01', step, None],
                       ['xy', 4 + step, 8 - step * 11], ['M16'], ['G05'], ['xy', None, step / 10], ['M30', step, -step]]
    if kind in ('tools', 'gaps', 'fritzing'):
        for k, t in enumerate(tools + tools[::-1]):
            cmds += [['t', t], ['xy', k % 9, k % 7]]
    elif kind == 'repeat':
        cmds += [['t', 1], ['xy', 0, 4], ['R', n, 1, None], ['t', 2], ['R', n, None, -1], ['xy', 4, None]]
    elif kind == 'repeat2':
        cmds += [['t', 2], ['xy', n, n], ['R', n, -1, 2], ['R', 2, last, -last], ['R', n, -last * 3, last], ['xy', 8, 8]]
    elif kind == 'holes':
        cmds += [['t', 1]] + [['xy', k * k % 31 if k % 3 or not k else None, k * 5 % 23 if k % 3 != 1 else None] for k in range(n)]
    elif kind == 'slots':
        cmds += [['t', 2]] + [['G85', k % 11, k % 7, (k * 3) % 13, (k * k) % 17] for k in range(n)] + [['xy', 4, 4]]
    elif kind == 'route':
        cmds += [['t', 1], ['G00', 0, 0], ['M15']] + [['G01' if k % 4 else 'xy', k % 11 + 1, k * k % 17] if k else ['G01', 4, 4]
                                                      for k in range(n)] + [['M16'], ['G05'], ['xy', 0, None]]
    else:
        x, y = most - n, most - 2 * n
        pts = [(x, y), (-x, -y), (x + 4 - last, -y - 4 + last), (last, -last * n), (None, -x), (-y + last * 3, None)]
        cmds += [['t', 1], ['xy', 0, 0]]
        if kind == 'far':
            cmds += [['xy'] + list(q) for q in pts]
        else:
            cmds += [['G85'] + list(q) + list(r) for q, r in zip(pts[:4], pts[3::-1])]
    return cmds + [['M30']]
