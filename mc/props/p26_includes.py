"""P26: a program split into include files draws what the whole program draws."""
import os
from itertools import product

from mc import gdocs as D
from mc import gmodel as G
from mc.core import Violation
from mc.props import p27_gerber_layout as L

PID = 'P26'
LEVEL = 'exploration'
RULE = ('(a) for each program, every run of its commands moved to an include file, every run of that run moved to a second '
        'level, and every second run after it moved to another file, with every directory and entry point for the single '
        'runs; (b) one include file used several times, also with commands whose meaning depends on the state at each use, in every sequence of states, then converted; (c) every nesting depth up to beyond the limit, and loops; the '
        'objects, units and apertures must be those of the flattened program, also after writing the file; outcome = files')
BOUNDS = {'quick': '(a) 4 programs of 12..20 commands; (b) 1..4 and 9..25 uses; (c) depth 0..13', 'thorough': '(a) 6 programs and three levels'}
ASSUMPTIONS = ('names of include files are relative to the directory of the top file', 'as P02')
DOCS = [(0, [['c'], ['line', 'flash']]), (1, [['r', 'DONUT', 'c'], ['flash']]), (2, [['c'], ['region', 'arcs']]),
        (0, [['TARGET', 'c', 'BOX'], ['clear', 'flash']]), (1, [['o', 'BOX', 'BOX2'], ['flash', 'clear']]),
        (2, [['c', 'ch'], ['regarc', 'clearline']])]
PLACES = ('plain', 'sub', 'absolute', 'crlf', 'noend', 'withend', 'attached')
ENTRIES = ('read', 'parser', 'loads', 'common', 'layer', 'cwd', 'cwd_loads', 'nameless')
LIMIT = 10


# what the commands of an include file mean depends on the state at each of its uses
MODAL = {
    'xy': [['c', None, 4, 0, None, None, None]],
    'y': [['c', None, None, 8, None, None, None], ['c', None, 4, None, None, None, None]],
    'flash': [['c', None, 4, 4, None, None, 'D03']],
    'arc': [['c', None, 4, 0, None, None, 'D02'], ['c', None, 0, 4, -4, 0, 'D01']],
    'area': [['G36'], ['c', None, 4, 0, None, None, 'D02'], ['c', 'G01', 8, 0, None, None, 'D01'],
             ['c', None, 8, 8, None, None, 'D01'], ['c', None, 4, 0, None, None, 'D01'], ['G37']],
    'tool': [['D', 11]],
}
MOVE, DRAW, FLASH = (['c', 'G01', 8, 4, None, None, op] for op in ('D02', 'D01', 'D03'))
SETUPS = {
    'xy': [[MOVE], [DRAW], [FLASH], [['D', 11], DRAW], [DRAW, ['LP', 'C']]],
    'y': [[MOVE], [DRAW], [FLASH], [['D', 10], FLASH]],
    'flash': [[['D', 10]], [['D', 11]], [['LP', 'C']], [['LP', 'D']], [DRAW]],
    'arc': [[['G75'], ['c', 'G02', None, None, None, None, None]], [['G75'], ['c', 'G03', None, None, None, None, None]],
            [['D', 10]], [['LP', 'C']]],
    'area': [[['D', 10]], [['LP', 'C']], [['LP', 'D']], [FLASH]],
    'tool': [[FLASH], [['D', 10], FLASH], [DRAW], [['D', 10]]],
}


def program(n):
    h, (aps, names) = DOCS[n]
    cmds = D.head(*(L.HEADS[h] + (aps,))) + [['D', 10]]
    for name in names:
        cmds = cmds + D.PIECES[name]
    return cmds


def texts(n):
    return [('%' + t + '%' if param else t) for param, t in L.pieces(program(n), 'plain')]


def cases(tier):
    quick = tier == 'quick'
    for n in range(4 if quick else 6):
        size = len(texts(n))
        for i in range(size):
            for j in range(i + 1, size + 1):
                for place in PLACES:
                    yield ['run', n, i, j, place, 'read']
                for entry in ENTRIES:
                    yield ['run', n, i, j, 'plain', entry]
                for k in range(i, j):
                    for l in range(k + 1, j + 1):
                        yield ['nest', n, [[i, j], [k, l]]]
                        if not quick and n < 2:
                            for m in range(k, l):
                                yield ['nest', n, [[i, j], [k, l], [m, m + 1]]]
                for k in range(j, size):
                    for l in range(k + 1, size + 1):
                        yield ['two', n, i, j, k, l]
    for uses in list(range(1, 5)) + [9, 10, 11, 12, 25]:
        for depth in range(3):
            for between in ('', 'G04 x*', 'D11*', '%LPC*%'):
                for end in ('', 'M02*', 'M00*'):
                    yield ['again', uses, depth, between, end]
    for inc in sorted(MODAL):
        for n in range(1, 4 if quick else 5):
            for setups in product(range(len(SETUPS[inc])), repeat=n):
                yield ['modal', inc, list(setups), 'plain' if sum(setups) % 2 else 'outside']
    for depth in range(14):
        for entry in ENTRIES[:4]:
            yield ['depth', depth, entry]
    for length in range(1, 4):
        yield ['loop', length]


def put(d, name, lines, eol='\n'):
    path = os.path.join(d, name)
    with open(path, 'wb') as f:
        f.write(eol.join(lines).encode() + (eol.encode() if lines else b''))
    return path


def include(name):
    return '%%IF%s*%%' % name


def read(path, text, entry):
    import gerber
    import gerber.layers
    import gerber.rs274x
    if entry == 'read':
        return gerber.rs274x.read(path)
    if entry == 'parser':
        return gerber.rs274x.GerberParser().parse(path)
    if entry == 'loads':
        return gerber.rs274x.loads(text, path)
    if entry == 'common':
        return gerber.read(path)
    if entry == 'layer':
        return gerber.load_layer(path).cam_source
    old = os.getcwd()
    os.chdir(os.path.dirname(path))
    try:
        if entry == 'cwd':
            return gerber.rs274x.read(os.path.basename(path))
        if entry == 'cwd_loads':
            return gerber.rs274x.loads(text, os.path.basename(path))
        return gerber.rs274x.loads(text)
    finally:
        os.chdir(old)


def check(f, cmds, exp, what, d):
    bad = D.compare(exp, f)
    if bad:
        raise Violation('%s: %s' % (what, bad))
    want = {'IN': 'inch', 'MM': 'metric'}[[c for c in cmds if c[0] == 'MO'][0][1]]
    if f.units != want or D.units_of(f) - {want}:
        raise Violation('%s: units' % what, want, (f.units, D.units_of(f)))
    if any(s.units != want for s in f.statements):
        raise Violation('%s: units of statements' % what, want, [s.units for s in f.statements])
    n = len([c for c in cmds if c[0] == 'ADx'])
    if len(f.apertures) != n:
        raise Violation('%s: number of apertures' % what, n, len(f.apertures))


def run(case, ctx):
    import gerber.rs274x
    d = ctx.scratch
    kind = case[0]
    text = None
    entry = 'read'
    if kind in ('run', 'nest', 'two'):
        n = case[1]
        cmds = program(n)
        ts = texts(n)
        if kind == 'run':
            _, n, i, j, place, entry = case
            name = 'part.inc'
            if place == 'sub':
                os.makedirs(os.path.join(d, 'sub'), exist_ok=True)
                name = 'sub/part.inc'
            elif place == 'absolute':
                name = os.path.join(d, 'other.inc')
            part = ts[i:j] + (['M02*'] if place == 'withend' and j == len(ts) else [])
            path = put(d, name, part, '\r\n' if place == 'crlf' else '\n')
            if place == 'noend':
                with open(path, 'wb') as f:
                    f.write('\n'.join(part).encode())
            inc = [include(name)]
            top = ts[:i] + inc + ts[j:] + ['M02*']
            if place == 'attached' and ts[i:i + 1] and i and ts[i - 1][0] == '%' and not ts[i - 1].startswith('%AM'):
                top = ts[:i - 1] + [ts[i - 1][:-1] + 'IF%s*%%' % name] + ts[j:] + ['M02*']
        elif kind == 'nest':
            spans = case[2]
            inner = ts[spans[-1][0]:spans[-1][1]]
            put(d, 'level%d.inc' % len(spans), inner)
            for depth in range(len(spans) - 1, 0, -1):
                (a, b), (k, l) = spans[depth - 1], spans[depth]
                inner = ts[a:k] + [include('level%d.inc' % (depth + 1))] + ts[l:b]
                put(d, 'level%d.inc' % depth, inner)
            top = ts[:spans[0][0]] + [include('level1.inc')] + ts[spans[0][1]:] + ['M02*']
        else:
            _, n, i, j, k, l = case
            put(d, 'one.inc', ts[i:j])
            put(d, 'two.inc', ts[k:l])
            top = ts[:i] + [include('one.inc')] + ts[j:k] + [include('two.inc')] + ts[l:] + ['M02*']
    elif kind == 'again':
        _, uses, depth, between, end = case
        cmds = D.head(*(L.HEADS[0] + (['c', 'r'],))) + [['D', 10]]
        put(d, 'again0.inc', [t for p, t in L.pieces(D.PIECES['flash'], 'plain')] + [end][:len(end)])
        for k in range(depth):
            put(d, 'again%d.inc' % (k + 1), [include('again%d.inc' % k)] + [end][:len(end)])
        top = [('%' + t + '%' if p else t) for p, t in L.pieces(cmds, 'plain')]
        for k in range(uses):
            cmds = cmds + D.PIECES['flash']
            top.append(include('again%d.inc' % depth))
            if between:
                top.append(between)
                cmds = cmds + {'G04 x*': [], 'D11*': [['D', 11]], '%LPC*%': [['LP', 'C']]}[between]
        top.append('M02*')
    elif kind == 'modal':
        _, inc, setups, place = case
        cmds = D.head(*(L.HEADS[0] + (['c', 'c' if inc == 'arc' else 'r'],))) + [['D', 10]]
        cmds = cmds + ([['G75'], ['c', 'G03', None, None, None, None, None]] if inc == 'arc' else [MOVE])
        tail = [['c', 'G01', 12, 12, None, None, 'D01'], ['c', None, 0, 12, None, None, 'D03']]
        name = 'modal.inc' if place == 'plain' else os.path.join(d, 'modal.inc')
        with_marks = list(cmds)
        for k in setups:
            with_marks = with_marks + SETUPS[inc][k] + [['G04', 'INCLUDE HERE']]
            cmds = cmds + SETUPS[inc][k] + MODAL[inc]
        cmds, with_marks = cmds + tail, with_marks + tail
        body = D.head(*(L.HEADS[0] + (['c'],)))
        whole = L.pieces(body + MODAL[inc], 'plain')[len(L.pieces(body, 'plain')):]
        put(d, 'modal.inc', [('%' + t + '%' if p else t) for p, t in whole])
        top = [('%' + t + '%' if p else t) for p, t in L.pieces(with_marks, 'plain')]
        assert sum('INCLUDE' in t for t in top) == len(setups)
        top = [include(name) if 'INCLUDE' in t else t for t in top] + ['M02*']
    elif kind == 'depth':
        _, depth, entry = case
        cmds = D.head(*(L.HEADS[0] + (['c'],))) + [['D', 10]] + D.PIECES['flash']
        body = [t for p, t in L.pieces(D.PIECES['flash'], 'plain')]
        top = [('%' + t + '%' if p else t) for p, t in L.pieces(cmds, 'plain')]
        top = top[:-len(body)]
        for k in range(1, depth + 1):
            put(d, 'deep%d.inc' % k, body if k == depth else [include('deep%d.inc' % (k + 1))])
        top += ([include('deep1.inc')] if depth else body) + ['M02*']
    else:
        for k in range(case[1]):
            put(d, 'loop%d.inc' % k, [include('loop%d.inc' % ((k + 1) % case[1]))])
        cmds = D.head(*(L.HEADS[0] + (['c'],)))
        top = ['%FSLAX24Y24*%', '%MOIN*%', include('loop0.inc'), 'M02*']
    path = put(d, 'top.gbr', top)
    text = '\n'.join(top) + '\n'
    too_deep = kind == 'loop' or kind == 'depth' and case[1] > LIMIT
    if kind == 'run' and entry in ('common', 'layer') and not any(t.startswith('%FS') for t in top):
        return None     # its format shows in the include file only
    ctx.trace()
    try:
        f = read(path, text, entry)
    except IOError:
        if too_deep:
            return 'refused'
        raise
    if too_deep:
        raise Violation('includes of unlimited depth were read')
    exp = D.transform(D.build(cmds).out, 1.0, 0.0, 0.0)
    check(f, cmds, exp, 'reading %r' % (top,), d)
    out = os.path.join(d, 'out.gbr')
    f.write(out)
    f2 = gerber.rs274x.read(out)
    check(f2, cmds, exp, 'written and read back: %r' % (top,), d)
    if kind in ('again', 'modal'):
        # every use has commands of its own: conversion reaches each of them once
        k = 25.4 if f.units == 'inch' else 1 / 25.4
        exp = D.transform(exp, k, 0.0, 0.0)
        f.to_metric() if f.units == 'inch' else f.to_inch()
        bad = D.compare(exp, f, 1e-7)
        if not bad:
            f.write(out)
            bad = D.compare(exp, gerber.rs274x.read(out), 0.002)
        if bad:
            raise Violation('converted: %s: %r' % (bad, top))
    return case, top
