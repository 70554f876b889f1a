# -*- coding: utf-8 -*-
"""Reference model of RS-274X: commands, text rendering, interpretation.

A program is a list of commands (JSON-able lists).  Coordinates are integers
counting quarters of the file unit, so everything is exact.

  ['FS', zero, (a, b)]            coordinate format; zero is 'L', 'T' or 'D'
  ['MO', 'IN' | 'MM']
  ['AD', d, shape, [modifiers]]   shape C R O P, modifiers are numbers
  ['LP', 'D' | 'C']
  ['c', func, x, y, i, j, op]     coordinate block, None = absent
  ['D', n] / ['G54', n]           aperture selection
  ['G36'] ['G37'] ['G74'] ['G75'] ['M02'] ['G70'] ['G71'] ['G90']
  ['G04', text]  ['raw', text]    no effect on the image
"""
from fractions import Fraction

Q = Fraction(1, 4)
ZS = {'L': 'leading', 'T': 'trailing', 'D': 'none'}


# ---------------------------------------------------------------- rendering
def encode(n, fmt, zero):
    """integer quarters -> digits in format fmt with zero mode (reference writer)."""
    a, b = fmt
    units = Fraction(n) * Q * 10 ** b
    if units.denominator != 1:
        raise AssertionError('not representable')
    u = int(units)
    s = str(abs(u)).rjust(a + b, '0')
    if len(s) > a + b:
        raise AssertionError('out of range')
    if zero == 'L':
        s = s.lstrip('0') or '0'
    elif zero == 'T':
        s = s.rstrip('0') or '0'
    return ('-' if u < 0 else '') + s


def num(x):
    """modifier number -> decimal text"""
    f = Fraction(x)
    s = '%.6f' % float(f)
    s = s.rstrip('0').rstrip('.')
    return s or '0'


class Style(object):
    """Spelling variants that must not matter."""

    def __init__(self, eol='\n', short=False, joined=False, params_joined=False, pad=False, split_func=False, plus=False):
        self.plus = plus                  # X+100 instead of X100
        self.eol = eol
        self.short = short                # G1 / D1 instead of G01 / D01
        self.joined = joined              # many commands on one line
        self.params_joined = params_joined  # several parameters in one %...% block
        self.pad = pad                    # blank lines, trailing blanks, empty blocks
        self.split_func = split_func      # G01*X..Y..D01* instead of G01X..Y..D01*


def spell(code, short):
    return code[0] + str(int(code[1:])) if short else code


def render(cmds, style=None):
    style = style or Style()
    fmt, zero = (2, 4), 'L'
    out = []          # (kind, text)
    for c in cmds:
        k = c[0]
        if k == 'FS':
            zero, fmt = c[1], tuple(c[2])
            out.append(('p', 'FS%sAX%d%dY%d%d*' % (zero, fmt[0], fmt[1], fmt[0], fmt[1])))
        elif k == 'MO':
            out.append(('p', 'MO%s*' % c[1]))
        elif k == 'LP':
            out.append(('p', 'LP%s*' % c[1]))
        elif k == 'AD':
            mods = 'X'.join(num(m) for m in c[3])
            out.append(('p', 'ADD%d%s%s*' % (c[1], c[2], ',' + mods if mods else '')))
        elif k == 'AM':
            out.append(('p', 'AM%s*%s' % (c[1], c[2])))
        elif k == 'praw':
            out.append(('p', c[1]))
        elif k == 'c':
            func, x, y, i, j, op = c[1:]
            s = ''
            for letter, v in (('X', x), ('Y', y), ('I', i), ('J', j)):
                if v is not None:
                    digits = encode(v, fmt, zero)
                    s += letter + ('+' if style.plus and digits[0] != '-' else '') + digits
            if op:
                s += spell(op, style.short)
            if func and s and style.split_func:
                out.append(('b', spell(func, style.short) + '*'))
                out.append(('b', s + '*'))
            else:
                out.append(('b', (spell(func, style.short) if func else '') + s + '*'))
        elif k == 'D':
            out.append(('b', 'D%d*' % c[1]))
        elif k == 'G54':
            out.append(('b', 'G54D%d*' % c[1]))
        elif k == 'G04':
            out.append(('b', 'G04%s*' % c[1]))
        elif k == 'raw':
            out.append(('b', c[1]))
        else:
            out.append(('b', k + '*'))
    lines = []
    i = 0
    while i < len(out):
        kind, text = out[i]
        if kind == 'p':
            texts = [text]
            if style.params_joined:
                while i + 1 < len(out) and out[i + 1][0] == 'p' and not text.startswith('AM'):
                    i += 1
                    texts.append(out[i][1])
            lines.append(('p', '%' + ''.join(texts) + '%'))
        else:
            texts = [text]
            if style.joined:
                while i + 1 < len(out) and out[i + 1][0] == 'b' and len(texts) < 5:
                    i += 1
                    texts.append(out[i][1])
            lines.append(('b', ''.join(texts)))
        i += 1
    res = ''
    for kind, text in lines:
        res += text
        if style.pad:
            res += ' ' + style.eol
        res += style.eol
    return res


# ------------------------------------------------------------- interpretation
def F(n):
    return None if n is None else Fraction(n) * Q


class Gerber(object):
    """Reference interpreter: modal graphics state -> list of graphics objects."""

    def __init__(self):
        self.units = 'inch'
        self.pos = (Fraction(0), Fraction(0))
        self.op = 'D02'
        self.ap = None
        self.interp = 'G01'
        self.region = False
        self.contour = []
        self.pol = 'dark'
        self.quad = 'multi-quadrant'
        self.aps = {}
        self.out = []

    def clone(self):
        g = Gerber()
        g.__dict__.update(self.__dict__)
        g.contour = list(self.contour)
        g.aps = dict(self.aps)
        g.out = []           # futures do not depend on past output
        return g

    def canon(self):
        """Everything the future can depend on.  Of the contour only 'empty',
        'a single straight segment' (dropped by D02) or 'more' matters."""
        c = 0 if not self.contour else 1 if len(self.contour) == 1 and self.contour[0][0] == 'line' else 2
        return (self.units, self.pos, self.op, self.ap, self.interp, self.region, c, self.pol, self.quad,
                tuple(sorted(self.aps)))

    def emit(self, obj):
        self.out.append(obj)

    def close(self):
        if self.contour:
            self.emit(('region', tuple(self.contour), self.pol))
        self.contour = []

    def apply(self, c):
        k = c[0]
        if k == 'MO':
            self.units = {'IN': 'inch', 'MM': 'metric'}[c[1]]
        elif k in ('G70', 'G71'):
            self.units = 'inch' if k == 'G70' else 'metric'
        elif k == 'LP':
            self.pol = {'D': 'dark', 'C': 'clear'}[c[1]]
        elif k == 'AD':
            self.aps[c[1]] = aperture_ref(c[2], c[3])
        elif k in ('D', 'G54'):
            self.ap = c[1]
        elif k == 'G36':
            self.region = True
        elif k == 'G37':
            if self.region:
                self.close()
            self.region = False
        elif k == 'G74':
            self.quad = 'single-quadrant'
        elif k == 'G75':
            self.quad = 'multi-quadrant'
        elif k == 'c':
            self.coord(*c[1:])

    def coord(self, func, x, y, i, j, op):
        if func:
            self.interp = func
        if x is None and y is None and i is None and j is None and op is None:
            return
        end = (self.pos[0] if x is None else F(x), self.pos[1] if y is None else F(y))
        if op:
            self.op = op
        if self.op == 'D01':
            ap = None if self.region else self.aps[self.ap]
            if self.interp == 'G01':
                seg = ('line', self.pos, end, ap, self.pol)
            else:
                off = (F(i) or Fraction(0), F(j) or Fraction(0))
                c = centre(self.pos, end, off, self.interp, self.quad)
                seg = ('arc', self.pos, end, c, {'G02': 'clockwise', 'G03': 'counterclockwise'}[self.interp],
                       self.quad, ap, self.pol)
            if self.region:
                self.contour.append(seg)
            else:
                self.emit(seg)
        elif self.op == 'D02':
            if self.region:
                self.close()
        elif self.op == 'D03':
            self.emit(('flash', self.aps[self.ap], end, self.pol))
        self.pos = end


def centre(start, end, off, func, quad):
    """Arc centre; exact arithmetic."""
    if quad == 'multi-quadrant':
        return (start[0] + off[0], start[1] + off[1])
    found = set()
    for sx in (1, -1):
        for sy in (1, -1):
            c = (start[0] + sx * off[0], start[1] + sy * off[1])
            a = (start[0] - c[0], start[1] - c[1])
            b = (end[0] - c[0], end[1] - c[1])
            if a[0] ** 2 + a[1] ** 2 != b[0] ** 2 + b[1] ** 2:
                continue
            cross = a[0] * b[1] - a[1] * b[0]
            dot = a[0] * b[0] + a[1] * b[1]
            if func == 'G02':
                cross = -cross
            if cross > 0 and dot >= 0:
                found.add(c)
    if len(found) != 1:
        raise AssertionError('ambiguous single quadrant arc %r' % ((start, end, off, func, found),))
    return found.pop()


def aperture_ref(shape, mods):
    m = [Fraction(v) for v in mods]
    z = Fraction(0)

    def hole(rest):
        if len(rest) == 1:
            return (rest[0], z, z)
        if len(rest) == 2:
            return (z, rest[0], rest[1])
        return (z, z, z)
    if shape == 'C':
        return ('C', m[0], hole(m[1:]))
    if shape in 'RO':
        return (shape, m[0], m[1], hole(m[2:]))
    if shape == 'P':
        return ('P', m[0], m[1], m[2] if len(m) > 2 else z, hole(m[3:]))
    raise KeyError(shape)


def interpret(cmds):
    g = Gerber()
    for c in cmds:
        g.apply(c)
    return g


# -------------------------------------------------- canonical view of real objects
def canon_hole(p):
    return (p.hole_diameter or 0, p.hole_width or 0, p.hole_height or 0)


def canon_aperture(p):
    from gerber import primitives as P
    if p is None:
        return None
    if type(p) is P.Circle:
        return ('C', p.diameter, canon_hole(p))
    if type(p) is P.Rectangle:
        return ('R', p.width, p.height, canon_hole(p)) + ((p.rotation,) if p.rotation else ())
    if type(p) is P.Obround:
        return ('O', p.width, p.height, canon_hole(p)) + ((p.rotation,) if p.rotation else ())
    if type(p) is P.Polygon:
        return ('P', p.radius * 2, p.sides, p.rotation, canon_hole(p))
    if type(p) is P.AMGroup:
        return ('group', tuple(canon_prim(s) for s in p.primitives))
    return (type(p).__name__,)


def canon_prim(p, in_region=False):
    from gerber import primitives as P
    if type(p) is P.Line:
        return ('line', tuple(p.start), tuple(p.end), None if in_region else canon_aperture(p.aperture),
                p.level_polarity)
    if type(p) is P.Arc:
        return ('arc', tuple(p.start), tuple(p.end), tuple(p.center) if p.center is not None else None,
                p.direction, p.quadrant_mode, None if in_region else canon_aperture(p.aperture), p.level_polarity)
    if type(p) is P.Region:
        return ('region', tuple(canon_prim(s, True) for s in p.primitives), p.level_polarity)
    if type(p) is P.Outline:
        return ('outline', tuple(canon_prim(s, True) for s in p.primitives), p.level_polarity)
    if type(p) is P.AMGroup:
        return ('flashgroup', tuple(canon_prim(s) for s in p.primitives), p.level_polarity)
    pos = getattr(p, 'position', None)
    return ('flash', canon_aperture(p), tuple(pos) if pos is not None else None, p.level_polarity)


def canon_file(f):
    return [canon_prim(p) for p in f.primitives]


def degenerate(obj):
    """A contour of one straight segment encloses nothing."""
    return obj[0] == 'region' and (not obj[1] or len(obj[1]) == 1 and obj[1][0][0] == 'line')


def visible(objs):
    return [o for o in objs if not degenerate(o)]


def same(a, b, rel=1e-9, tol=1e-9):
    """Structural equality, numbers to within tolerance."""
    if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)) \
            and not isinstance(a, bool) and not isinstance(b, bool):
        x, y = float(a), float(b)
        return x == y or abs(x - y) <= max(tol, rel * max(abs(x), abs(y)))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(p, q, rel, tol) for p, q in zip(a, b))
    return a == b


def show(x):
    """readable form of canonical data"""
    if isinstance(x, Fraction):
        return '%g' % float(x)
    if isinstance(x, float):
        return '%.9g' % x
    if isinstance(x, (tuple, list)):
        return '(' + ', '.join(show(v) for v in x) + ')'
    return str(x)


def first_difference(exp, got):
    for n, (a, b) in enumerate(zip(exp, got)):
        if not same(a, b):
            return 'object %d: expected %s, got %s' % (n, show(a), show(b))
    if len(exp) != len(got):
        longer, who = (exp, 'missing') if len(exp) > len(got) else (got, 'unexpected')
        return '%d objects expected, %d produced; first %s: %s' % (
            len(exp), len(got), who, show(longer[min(len(exp), len(got))]))
    return 'equal'
