# -*- coding: utf-8 -*-
"""Documents (Gerber programs) used by the file-level properties, and the model of
what unit conversion, translation and rewriting do to the objects they draw."""
import os
from fractions import Fraction

from . import gmodel as G
from . import macros as M

MACROS = {
    # name: (definition text, number of parameters)
    'PLAIN': '1,1,0.5,0.25,0*',
    'TARGET': '0 a comment, with = and $1*1,1,1,0,0*1,0,0.5,0.125,0*',
    'BOX': '21,1,$1,$2,0,0.25,30*',
    'VEC': '20,1,0.25,0,-0.5,0.5,0.5,90*',
    'TRI': '4,1,3,0,0,1,0,0,$1,0,0,0*',
    'DONUT': '$3=$1-$2*1,1,$1,0,0*1,0,$3,0,0*',
    'POLY': '5,1,6,0,0,$1x2,15*',
    'THERM': '7,0,0,1,0.5,0.125,15*',
    'THERM0': '7,0.25,-0.5,1.5,0,0.25,0*',
    # moire and lower-left line have no drawable form in this library, but are commands like any other
    'MOIRE': '1,1,0.25,0,0*6,0.5,-0.25,2,0.125,0.0625,3,0.03125,2.5,15*1,0,0.125,0,0*',
    'LOWLEFT': '22,1,1,0.5,-0.25,0.125,30*0 between, two*1,1,0.25,$1,0*22,0,0.5,0.25,1,0,0*',
    # a fiducial of nothing else than a moire; a macro of nothing
    'FIDUCIAL': '6,0,0,1,0.125,0.0625,3,1.25,0.03125,0*',
    'EMPTY': '0 nothing*',
    'CROSS': '20,1,0.125,-0.5,0,0.5,0,0*20,1,0.125,0,-0.5,0,0.5,0*',
}
# many primitives, one of them with many points; every primitive with fine numbers
_BIG = [['1', 1, 0.125, (k % 8 - 3) * 0.125, (k // 8 - 3) * 0.25] for k in range(45)] + [
    ['4', 1, 48] + [v for k in range(49) for v in ((k % 48 - 24) / 32.0, 0.75 + (k % 48 % 2) * 0.25 if k % 48 else -0.5)] + [0],
    ['21', 1, 0.5, 0.25, -0.75, 0.5, 0], ['1', 0, 0.125, 0.5, 0.875]]
_FINE = [['1', 1, 1.123457, 0.100003, -0.200001], ['20', 1, 0.123456, -0.500001, 0.000007, 0.512345, 0.25, 30.25],
         ['21', 1, 1.000003, 0.512345, 0.123459, 0.251234, 15.125], ['4', 1, 3, 0.000011, 0, 1.000007, 0.012345, 0, 0.712345, 0.000011, 0, 0.5],
         ['5', 1, 6, 0.123451, -0.012349, 0.987654, 12.0625], ['7', 0.100001, 0.200003, 1.012347, 0.512349, 0.123457, 10.5]]
_FINE_ALL = _FINE[:2] + [['22', 1, 1.000001, 0.500007, -0.250009, 0.125003, 30.5],
                         ['6', 0.500003, -0.250001, 2.000007, 0.125009, 0.062503, 3, 0.031257, 2.500001, 15.25]] + _FINE[2:]


def _definition(prims):
    return ''.join(','.join(('%.6f' % v).rstrip('0').rstrip('.') if not isinstance(v, str) else v for v in q + ([0] if q[0] == '1' else []))
                   + '*' for q in prims)


MACROS['BIG'] = _definition(_BIG)
MACROS['FINEMAC'] = _definition(_FINE_ALL)

# aperture choices: standard templates and macros with parameters
APERTURES = {
    'c': ['C', [0.5]], 'c0': ['C', [0]], 'ch': ['C', [1, 0.5]], 'chh': ['C', [1, 0.5, 0.25]],
    'r': ['R', [1, 0.5]], 'rh': ['R', [1, 0.5, 0.25]], 'rhh': ['R', [0.5, 1, 0.25, 0.125]],
    'o': ['O', [1, 0.5]], 'oh': ['O', [0.5, 1, 0.25]], 'ohh': ['O', [1, 0.5, 0.125, 0.25]],
    'p': ['P', [1, 6]], 'pr': ['P', [1, 5, 15]], 'ph': ['P', [1, 3, -30, 0.25]], 'phh': ['P', [1, 4, 45, 0.25, 0.125]],
    'fine': ['C', [0.123456]], 'finer': ['R', [12.34567, 0.00125]],
    'PLAIN': ['PLAIN', []], 'TARGET': ['TARGET', []], 'BOX': ['BOX', [1, 0.5]], 'BOX2': ['BOX', [0.25, 0.125]],
    'VEC': ['VEC', []], 'TRI': ['TRI', [0.75]], 'TRI2': ['TRI', [1.5]], 'DONUT': ['DONUT', [1, 0.25]],
    'DONUT2': ['DONUT', [2, 0.5]], 'POLY': ['POLY', [0.5]], 'THERM': ['THERM', []], 'THERM0': ['THERM0', []], 'CROSS': ['CROSS', []],
    'MOIRE': ['MOIRE', []], 'LOWLEFT': ['LOWLEFT', [0.5]], 'BIG': ['BIG', []], 'FIDUCIAL': ['FIDUCIAL', []], 'EMPTY': ['EMPTY', []], 'FINEMAC': ['FINEMAC', []],
}
STANDARD = [k for k in APERTURES if k[0].islower()]
MACRO_APS = [k for k in APERTURES if k[0].isupper()]


def head(units, fmt, zero, aps):
    """FS MO [AM...] AD... ; macros are defined once each, before use."""
    cmds = [['FS', zero, list(fmt)], ['MO', units]]
    seen = set()
    for n, key in enumerate(aps):
        shape, mods = APERTURES[key]
        if shape in MACROS and shape not in seen:
            seen.add(shape)
            cmds.append(['AM', shape, MACROS[shape]])
        cmds.append(['ADx', 10 + n, shape, mods])
    return cmds


def text_of(cmds, style=None):
    """G.render, with macro apertures spelt as ordinary AD commands"""
    return G.render([['AD'] + c[1:] if c[0] == 'ADx' else c for c in cmds] + [['M02']], style)


# pieces of drawing; each leaves the state usable by any other piece
PIECES = {
    'line': [['G01'], ['c', 'G01', 0, 0, None, None, 'D02'], ['c', None, 4, 2, None, None, 'D01'],
             ['c', None, None, 8, None, None, 'D01']],
    'arcm': [['G75'], ['c', 'G01', 4, 0, None, None, 'D02'], ['c', 'G03', 0, 4, -4, 0, 'D01'],
             ['c', 'G02', 0, -4, None, -4, 'D01']],
    'circ': [['G75'], ['c', 'G01', 4, 4, None, None, 'D02'], ['c', 'G02', 4, 4, 2, 0, 'D01']],
    'arcs': [['G74'], ['c', 'G01', 4, 0, None, None, 'D02'], ['c', 'G03', 0, 4, 4, 0, 'D01'],
             ['c', 'G02', 4, 8, 4, 0, 'D01']],
    'flash': [['c', 'G01', 4, -4, None, None, 'D03'], ['c', None, None, 12, None, None, 'D03']],
    'region': [['G36'], ['c', 'G01', 0, 0, None, None, 'D02'], ['c', None, 8, 0, None, None, 'D01'],
               ['c', None, 8, 4, None, None, 'D01'], ['c', None, 0, 0, None, None, 'D01'], ['G37']],
    'regarc': [['G75'], ['G36'], ['c', 'G01', 8, 0, None, None, 'D02'], ['c', 'G03', -8, 0, -8, 0, 'D01'],
               ['c', 'G01', 8, 0, None, None, 'D01'], ['c', None, 20, 20, None, None, 'D02'],
               ['c', None, 24, 20, None, None, 'D01'], ['c', None, 24, 24, None, None, 'D01'],
               ['c', None, 20, 20, None, None, 'D01'], ['G37']],
    'clear': [['LP', 'C'], ['c', 'G01', 2, 2, None, None, 'D03'], ['LP', 'D']],
    'clearline': [['LP', 'C'], ['c', 'G01', -4, -4, None, None, 'D02'], ['c', None, 4, -4, None, None, 'D01'],
                  ['LP', 'D']],
    # the code of an aperture in use is given to others
    'redef': [['ADx', 10, 'R', [1, 0.5]], ['D', 10], ['c', None, 2, 6, None, None, 'D03'], ['ADx', 10, 'O', [0.25, 0.75]], ['D', 10],
              ['c', None, 6, 2, None, None, 'D03'], ['ADx', 10, 'C', [0.125]], ['D', 10], ['c', 'G01', 6, 6, None, None, 'D01']],
}
NON_DRAWING = {
    'comment': ['G04', ' some text, X1Y2D01 %s' % 'x=1'],
    'nocomment': ['G04', ''],
    'in': ['praw', 'INmy image*'], 'ln': ['praw', 'LNLayer_1*'], 'ippos': ['praw', 'IPPOS*'],
    'ipneg': ['praw', 'IPNEG*'], 'as': ['praw', 'ASAXBY*'], 'as2': ['praw', 'ASAYBX*'],
    'ir': ['praw', 'IR90*'], 'mi': ['praw', 'MIA1B0*'], 'mia': ['praw', 'MIA1*'], 'mib': ['praw', 'MIB1*'],
    'of': ['praw', 'OFA1.5B-0.25*'], 'ofa': ['praw', 'OFA2*'], 'ofb': ['praw', 'OFB0.5*'],
    'sf': ['praw', 'SFA1.5B2.25*'], 'sfa': ['praw', 'SFA0.5*'], 'sfb': ['praw', 'SFB3*'],
    'attr': ['praw', 'TF.FileFunction,Copper,L1,Top*'],
    'g90': ['G90'], 'unknown': ['raw', 'G99*'], 'stop0': ['raw', 'G54D10*'],
    'rectmode': ['G75'], 'quad': ['G74'], 'lpd': ['LP', 'D'], 'func': ['c', 'G01', None, None, None, None, None],
}


def macro_prims(name, p):
    """reference evaluation of MACROS[name] with parameters p (see mc.macros for the form)"""
    p = [float(v) for v in p]
    if name == 'PLAIN':
        return [['1', 1, 0.5, 0.25, 0]]
    if name == 'TARGET':
        return [['1', 1, 1, 0, 0], ['1', 0, 0.5, 0.125, 0]]
    if name == 'BOX':
        return [['21', 1, p[0], p[1], 0, 0.25, 30]]
    if name == 'VEC':
        return [['20', 1, 0.25, 0, -0.5, 0.5, 0.5, 90]]
    if name == 'TRI':
        return [['4', 1, 3, 0, 0, 1, 0, 0, p[0], 0, 0, 0]]
    if name == 'DONUT':
        return [['1', 1, p[0], 0, 0], ['1', 0, p[0] - p[1], 0, 0]]
    if name == 'POLY':
        return [['5', 1, 6, 0, 0, p[0] * 2, 15]]
    if name == 'THERM':
        return [['7', 0, 0, 1, 0.5, 0.125, 15]]
    if name == 'THERM0':
        return [['7', 0.25, -0.5, 1.5, 0, 0.25, 0]]
    if name == 'MOIRE':
        return [['1', 1, 0.25, 0, 0], ['1', 0, 0.125, 0, 0]]
    if name == 'LOWLEFT':
        return [['1', 1, 0.25, p[0], 0]]
    if name in ('FIDUCIAL', 'EMPTY'):
        return []
    if name == 'CROSS':
        return [['20', 1, 0.125, -0.5, 0, 0.5, 0, 0], ['20', 1, 0.125, 0, -0.5, 0, 0.5, 0]]
    if name == 'BIG':
        return _BIG
    if name == 'FINEMAC':
        return _FINE
    raise KeyError(name)


# positions (code first) of the lengths among the modifiers of a macro primitive
LENGTHS = {'1': (2, 3, 4), '20': (2, 3, 4, 5, 6), '21': (2, 3, 4, 5), '22': (2, 3, 4, 5), '5': (3, 4, 5),
           '6': (1, 2, 3, 4, 5, 7, 8), '7': (1, 2, 3, 4, 5)}


def macro_commands(name, p, k=1.0):
    """every primitive of MACROS[name] with parameters p, lengths scaled by k: [code, modifiers...], comments ['0', text]"""
    out = []
    for prim in macro_all(name, [float(v) for v in p]):
        if prim[0] == '0':
            out.append(prim)
            continue
        n = len(prim)
        which = range(3, n - 1) if prim[0] == '4' else LENGTHS[prim[0]]
        out.append([prim[0]] + [float(v) * (k if i in which else 1.0) for i, v in enumerate(prim) if i])
    return out


def macro_all(name, p):
    if name == 'TARGET':
        return [['0', 'a comment, with = and $1']] + macro_prims(name, p)
    if name == 'MOIRE':
        a, b = macro_prims(name, p)
        return [a, ['6', 0.5, -0.25, 2, 0.125, 0.0625, 3, 0.03125, 2.5, 15], b]
    if name == 'LOWLEFT':
        return [['22', 1, 1, 0.5, -0.25, 0.125, 30], ['0', 'between, two']] + macro_prims(name, p) + [
            ['22', 0, 0.5, 0.25, 1, 0, 0]]
    if name == 'FINEMAC':
        return _FINE_ALL
    if name == 'FIDUCIAL':
        return [['6', 0, 0, 1, 0.125, 0.0625, 3, 1.25, 0.03125, 0]]
    if name == 'EMPTY':
        return [['0', 'nothing']]
    return macro_prims(name, p)


def macro_written(text):
    """{name: primitives} of the macros of a written file, None for those that still have variables"""
    out = {}
    for block in text.split('%'):
        if not block.startswith('AM'):
            continue
        parts = [q.strip() for q in block[2:].split('*')]
        name, prims = parts[0], []
        for q in parts[1:]:
            if not q:
                continue
            if q[0] == '0':
                prims.append(['0', q[1:].strip()])
            elif '$' in q:
                prims = None
                break
            else:
                mods = q.split(',')
                prims.append([mods[0]] + [float(v) for v in mods[1:]])
        out[name] = prims
    return out


def macros_differ(text, aps, k, tol=1e-6):
    """None, or how the macro commands of a written file differ from those of the apertures (keys of APERTURES)
    scaled by k. A macro that is used with different parameters has to keep its variables."""
    have = macro_written(text)
    names = {}
    for a in aps:
        shape, mods = APERTURES[a]
        if shape in MACROS:
            names.setdefault(shape, set()).add(tuple(mods))
    if set(have) != set(names):
        return 'macros %s expected, %s written' % (sorted(names), sorted(have))
    for name, params in names.items():
        if have[name] is None:
            continue
        if len(params) > 1:
            return 'macro %s is used with several parameters, but written without variables' % name
        want = macro_commands(name, list(params)[0], k)
        if not G.same(want, have[name], tol, tol):
            return 'macro %s: commands %s expected, %s written' % (name, G.show(want), G.show(have[name]))
    return None


def stroke_ok(key):
    """apertures a line or arc may be drawn with (macros cannot)"""
    return APERTURES[key][0] in 'CRO'


def build(cmds):
    """(objects, units): what the program draws, for programs with standard apertures and macros.
    Macro flashes are represented by ('macro', name, params, position, polarity)."""
    g = G.Gerber()
    for c in cmds:
        if c[0] == 'ADx':
            if c[2] in MACROS:
                g.aps[c[1]] = ('macro', c[2], tuple(Fraction(v) for v in c[3]))
            else:
                g.apply(['AD'] + c[1:])
        else:
            g.apply(c)
    return g


def write_text(f, path, settings=None):
    f.write(path, settings)
    with open(path) as fp:
        return fp.read()


def scratch_file(ctx, name='out.gbr'):
    return os.path.join(ctx.scratch, name)


# --------------------------------------------------- transforming canonical objects
def scaled_aperture(a, k):
    def hole(h):
        return tuple(float(v) * k for v in h)
    if a is None:
        return None
    if a[0] == 'C':
        return ('C', float(a[1]) * k, hole(a[2]))
    if a[0] in ('R', 'O'):
        return (a[0], float(a[1]) * k, float(a[2]) * k, hole(a[3])) + tuple(a[4:])
    if a[0] == 'P':
        return ('P', float(a[1]) * k, a[2], a[3], hole(a[4]))
    if a[0] == 'macro':
        return a + (k,)
    raise KeyError(a[0])


def transform(objs, k, dx, dy):
    """Canonical objects scaled by k, then translated."""
    def pt(p):
        return (float(p[0]) * k + dx, float(p[1]) * k + dy)
    out = []
    for o in objs:
        if o[0] == 'line':
            out.append(('line', pt(o[1]), pt(o[2]), scaled_aperture(o[3], k), o[4]))
        elif o[0] == 'arc':
            out.append(('arc', pt(o[1]), pt(o[2]), pt(o[3]), o[4], o[5], scaled_aperture(o[6], k), o[7]))
        elif o[0] == 'region':
            out.append((o[0], tuple(transform(o[1], k, dx, dy)), o[2]))
        elif o[0] == 'flash':
            out.append(('flash', scaled_aperture(o[1], k), pt(o[2]), o[3]))
        else:
            raise KeyError(o[0])
    return out


def without_points(obj):
    """contours without their straight segments of no length"""
    if obj[0] != 'region':
        return obj
    return ('region', tuple(s for s in obj[1] if s[0] != 'line' or s[1] != s[2]), obj[2])


def compare(exp, f, tol=1e-9, ignore_degenerate=True, ignore_points=False):
    """None, or what differs between the expected objects and the file's primitives."""
    prims = list(f.primitives)
    got = [G.canon_prim(p) for p in prims]
    if ignore_points:
        exp = [without_points(o) for o in exp]
        got = [without_points(o) for o in got]
    if ignore_degenerate:
        exp = G.visible(exp)
        keep = [n for n, o in enumerate(got) if not G.degenerate(o)]
        prims, got = [prims[n] for n in keep], [got[n] for n in keep]
    for n, (a, p, b) in enumerate(zip(exp, prims, got)):
        if a[0] == 'flash' and a[1][0] == 'macro':
            _, name, params, k = a[1]
            refs = [M.scaled(r, k, a[2][0], a[2][1])
                    for q in macro_prims(name, params) for r in M.reference(q, (0, 0))]
            ok = (b[0] == 'flashgroup' and b[2] == a[3] and M.near(p.position, a[2], tol)
                  and len(p.primitives) == len(refs)
                  and all(M.matches(r, s, tol) for r, s in zip(refs, p.primitives)))
            if not ok:
                return 'object %d: expected macro flash %s with parts %s, got %s at %s' % (
                    n, G.show(a), G.show(refs), G.show(b), getattr(p, 'position', None))
        elif not G.same(a, b, tol, tol):
            return 'object %d: expected %s, got %s' % (n, G.show(a), G.show(b))
    if len(exp) != len(got):
        longer, who = (exp, 'missing') if len(exp) > len(got) else (got, 'unexpected')
        return '%d objects expected, %d found; first %s: %s' % (
            len(exp), len(got), who, G.show(longer[min(len(exp), len(got))]))
    return None


def units_of(f):
    """every unit designation found in the file's primitives and their parts"""
    seen = set()

    def visit(p):
        seen.add(p.units)
        for q in getattr(p, 'primitives', ()):
            visit(q)
        a = getattr(p, 'aperture', None)
        if a is not None and getattr(a, 'units', None) is not None:
            seen.add(a.units)
    for p in f.primitives:
        visit(p)
    return seen


MANY = ('circles', 'mixed', 'donuts', 'codes', 'strokes')
COUNTS = (1, 2, 3, 5, 8, 9, 10, 11, 12, 16, 17, 20, 25, 32, 33, 50, 64, 65, 89, 90, 91, 99, 100, 101, 128, 200)


def many(kind, n, units='IN'):
    """programs with n apertures, each used twice, between uses of others"""
    cmds = [['FS', 'L', [3, 5]], ['MO', units]]
    if kind == 'donuts':
        cmds.append(['AM', 'DONUT', MACROS['DONUT']])
    codes = [10 + k for k in range(n)] if kind != 'codes' else [10 + (k * 137) % 1990 for k in range(n)]
    for k, d in enumerate(codes):
        size = 0.25 + 0.0625 * k
        shape, mods = {
            'circles': lambda: ('C', [size]), 'codes': lambda: ('C', [size]), 'strokes': lambda: ('R', [size, 20.5 - size]),
            'donuts': lambda: ('DONUT', [size, size / 4]),
            'mixed': lambda: [('C', [size, 0.125]), ('R', [size, 1]), ('O', [0.5, size, 0.125]), ('P', [size, 3 + k % 10, k % 360]),
                              ('R', [1, size, 0.125, 0.0625]), ('P', [1, 5, k % 360, 0.125])][k % 6]}[kind]()
        cmds.append(['ADx', d, shape, mods])
    for k, d in enumerate(codes + codes[::-1]):
        x, y = 4 * (k % 23), 4 * (k % 17)
        cmds += [['D', d], ['c', 'G01', x, y, None, None, 'D03']]
        if kind == 'strokes':
            cmds += [['c', None, x + 4, y - k % 5, None, None, 'D01']]
    return cmds
