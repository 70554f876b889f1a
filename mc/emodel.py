# -*- coding: utf-8 -*-
"""Reference model of Excellon drill programs.

A program is a list of commands (JSON lists); coordinates are integer quarters
of the unit.  `render` spells it, `interpret` gives its meaning.

    ['M48'] ['M95'] ['%']  ['u', 'INCH'|'METRIC', 'LZ'|'TZ'|None, None|(a, b)]  ['FF', a, b]  ['FMAT', n]
    ['T', n, diam]   tool definition (diam in quarters/8, i.e. 1/32 units)
    ['t', n]  ['t', n, comp]   tool selection        ['M00']  next tool
    ['xy', x, y]  ['R', n, dx, dy]  ['G85', x1, y1, x2, y2]  ['G00', x, y]  ['G01', x, y]
    ['M15'] ['M16'] ['M17'] ['G05'] ['M71'] ['M72'] ['ICI', 'ON'|'OFF'] ['G90'] ['G91'] ['M30'] [';', text] ['raw', text]
"""
from fractions import Fraction

from . import gmodel as G

Q = G.Q
TQ = Fraction(1, 32)



class Style(object):
    """Spelling that carries no meaning: decimal points, line breaks, blank lines, G00/G01 on a line of their own."""

    def __init__(self, decimal=False, eol='\n', blank=False, split=False, short=False, indent=False, comments=False,
                 dialect=None, plus=False):
        self.decimal, self.eol, self.blank, self.split = decimal, eol, blank, split
        self.short, self.indent, self.comments, self.dialect = short, indent, comments, dialect
        self.plus = plus    # X+100 instead of X100


class Drill(object):
    """Modal state of the drilling machine."""

    def __init__(self):
        self.units, self.fmt, self.zeros = 'inch', (2, 4), 'L'
        self.notation, self.mode, self.down = 'abs', 'DRILL', False
        self.pos, self.tool = (0, 0), None
        self.tools = {}      # number -> diameter
        self.order = []
        self.hits = []       # ('hole', tool, (x, y)) / ('slot', tool, (x, y), (x, y), kind)
        self.body = False

    def clone(self):
        other = Drill.__new__(Drill)
        other.__dict__.update(self.__dict__)
        other.tools, other.order, other.hits = dict(self.tools), list(self.order), list(self.hits)
        return other

    def canon(self):
        return (self.units, self.fmt, self.zeros, self.notation, self.mode, self.down, self.pos, self.tool)

    def moved(self, x, y):
        px, py = self.pos
        if self.notation == 'abs':
            return (px if x is None else x, py if y is None else y)
        return (px + (x or 0), py + (y or 0))

    def apply(self, c):
        op = c[0]
        if op == 'u':
            self.units = 'inch' if c[1] == 'INCH' else 'metric'
            self.zeros = 'T' if c[2] == 'LZ' else 'L'
            self.fmt = tuple(c[3]) if c[3] else self.fmt
        elif op == 'FF':
            self.fmt = (c[1], c[2])
        elif op == 'FMAT':
            self.fmt = (c[1], 6 - c[1])
        elif op in ('M71', 'M72'):
            self.units = 'inch' if op == 'M72' else 'metric'
        elif op == 'T':
            if c[1] not in self.tools:
                self.order.append(c[1])
            self.tools[c[1]] = c[2]
        elif op == 't':
            if c[1] != 0:
                self.tool = c[1]
                if c[1] not in self.tools:
                    # a tool which is defined nowhere has the size of that number of the standard rack
                    self.order.append(c[1])
                    self.tools[c[1]] = rack(c[1], self.units)
        elif op == 'M00':
            self.tool += 1
        elif op == 'ICI':
            self.notation = 'inc' if c[1] == 'ON' else 'abs'
        elif op == 'G91':
            self.notation = 'inc'
        elif op == 'G90':
            self.notation = 'abs'
        elif op == 'G05':
            self.mode, self.down = 'DRILL', False
        elif op in ('M16', 'M17'):
            self.down = False
        elif op == 'M15':
            self.down = True
        elif op == 'G00':
            self.mode = 'ROUT'
            self.pos = self.moved(c[1], c[2])
        elif op in ('G01', 'xy'):
            if self.tool is None and (self.mode == 'DRILL' or self.down):
                self.tool = 1
            start = self.pos
            self.pos = self.moved(c[1], c[2])
            if op == 'G01':
                self.mode = 'LINEAR'
            if self.mode == 'DRILL':
                self.hits.append(('hole', self.tool, self.pos))
            elif self.mode == 'LINEAR' and self.down:
                self.hits.append(('slot', self.tool, start, self.pos, 'rout'))
        elif op == 'R':
            for _ in range(c[1]):
                self.pos = (self.pos[0] + (c[2] or 0), self.pos[1] + (c[3] or 0))
                self.hits.append(('hole', self.tool, self.pos))
        elif op == 'G85':
            if self.tool is None:
                self.tool = 1
            if self.notation == 'abs':
                start = (self.pos[0] if c[1] is None else c[1], self.pos[1] if c[2] is None else c[2])
                end = (start[0] if c[3] is None else c[3], start[1] if c[4] is None else c[4])
            else:
                start = (self.pos[0] + (c[1] or 0), self.pos[1] + (c[2] or 0))
                end = (start[0] + (c[3] or 0), start[1] + (c[4] or 0))
            self.hits.append(('slot', self.tool, start, end, 'G85'))
            # the stated end coordinates; one left out is that of the start when the start states it
            self.pos = end
        elif op == '%':
            self.body = True


def rack(number, units):
    """16 mil and 8 mil more for each number, in 32nds of the unit"""
    return Fraction(16 + 8 * number, 1000) * (1 if units == 'inch' else Fraction(254, 10)) / TQ


def interpret(cmds):
    d = Drill()
    for c in cmds:
        d.apply(c)
    return d


def coord(n, d, style):
    if n is None:
        return None
    if style.decimal:
        v = Fraction(n) * Q
        if v.denominator == 1:
            return '%d.' % int(v)
        s = ('%.12f' % float(v)).rstrip('0')
        assert Fraction(s) == v, v
        return s
    return G.encode(n, d.fmt, d.zeros)


def xy(x, y, d, style):
    s = ''
    for letter, v in (('X', x), ('Y', y)):
        if v is not None:
            number = coord(v, d, style)
            s += letter + ('+' if style.plus and number[0] != '-' else '') + number
    return s


def render(cmds, style=None):
    style = style or Style()
    d = Drill()
    out = []
    for c in cmds:
        op = c[0]
        if op == 'u':
            s = c[1] + (',' + c[2] if c[2] else '')
            if c[3]:
                s += ',' + '0' * c[3][0] + '.' + '0' * c[3][1]
        elif op == 'FF':
            s = (';FILE_FORMAT=%d:%d', '; FILE_FORMAT=%d:%d')[bool(style.blank or style.comments)] % (c[1], c[2])
        elif op == 'FMAT':
            s = 'FMAT,%d' % c[1]
        elif op == 'T':
            s = 'T%02dC%s' % (c[1], dec(Fraction(c[2]) * TQ))
            if style.dialect == 'eagle':
                s = 'T%dC%s' % (c[1], dec(Fraction(c[2]) * TQ))
            elif style.dialect == 'feeds':
                s = 'T%02dF00S00C%s' % (c[1], dec(Fraction(c[2]) * TQ))
        elif op == 't':
            s = ('T%d' if style.short else 'T%02d') % c[1]
            if len(c) > 2:
                s = 'T%02d%02d' % (c[1], c[2])
        elif op == 'xy':
            s = xy(c[1], c[2], d, style)
        elif op == 'R':
            s = ('R%d' if style.short else 'R%02d') % c[1] + xy(c[2], c[3], d, style)
        elif op == 'G85':
            s = xy(c[1], c[2], d, style) + 'G85' + xy(c[3], c[4], d, style)
        elif op in ('G00', 'G01'):
            s = op + (style.eol if style.split else '') + xy(c[1], c[2], d, style)
        elif op == ';':
            s = ';' + c[1]
        elif op == 'M30' and len(c) > 1:
            s = 'M30' + xy(c[1], c[2], d, style)
        elif op == 'raw':
            s = c[1]
        elif op == 'ICI':
            s = 'ICI,' + c[1]
        else:
            s = op
        if style.indent:
            s = '  ' + s + ' '
        out.append(s)
        if style.blank and op not in ('G00', 'G01'):
            out.append('')
        if style.comments:
            out.append('; a remark, X1Y2 T9C1')
        d.apply(c)
    return style.eol.join(out) + style.eol


def dec(v):
    s = '%.5f' % float(v)
    assert Fraction(s) == v, v
    s = s.rstrip('0')
    return s + '0' if s.endswith('.') else s


def declares_all(cmds):
    """Does the header say how numbers are to be read?"""
    ops = [c[0] for c in cmds]
    return (any(c[0] == 'u' and (c[3] or 'FF' in ops or 'FMAT' in ops) for c in cmds))


def settings_of(cmds, cls):
    d = interpret(cmds)
    return cls(units=d.units, format=d.fmt, zero_suppression='leading' if d.zeros == 'L' else 'trailing')


# canonical data ------------------------------------------------------------------------------------------------

def model_hits(d, k=1.0, dx=0.0, dy=0.0):
    def pt(p):
        return (float(Fraction(p[0]) * Q) * k + dx, float(Fraction(p[1]) * Q) * k + dy)
    out = []
    for h in d.hits:
        dia = float(Fraction(d.tools[h[1]]) * TQ) * k
        if h[0] == 'hole':
            out.append(('hole', h[1], dia, pt(h[2])))
        else:
            out.append(('slot', h[1], dia, pt(h[2]), pt(h[3]), h[4]))
    return out


def file_hits(f):
    from gerber.excellon import DrillSlot
    out = []
    for h in f.hits:
        if isinstance(h, DrillSlot):
            out.append(('slot', h.tool.number, h.tool.diameter, tuple(h.start), tuple(h.end),
                        {DrillSlot.TYPE_ROUT: 'rout', DrillSlot.TYPE_G85: 'G85'}[h.slot_type]))
        else:
            out.append(('hole', h.tool.number, h.tool.diameter, tuple(h.position)))
    return out


def tool_list(f):
    return [(n, t.number, t.diameter, t.hit_count) for n, t in f.tools.items()]


def model_tools(d, k=1.0):
    counts = {}
    for h in d.hits:
        counts[h[1]] = counts.get(h[1], 0) + 1
    return [(n, n, float(Fraction(d.tools[n]) * TQ) * k, counts.get(n, 0)) for n in d.order]


def by_tool(hits, order):
    out = []
    for n in order:
        out += [h for h in hits if h[1] == n]
    return out
