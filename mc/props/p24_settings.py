"""P24: settings stay consistent under every history of assignments."""
from itertools import product

from mc.core import Violation

PID = 'P24'
LEVEL = 'model_checking'
RULE = ('model: the record (notation, units, zero suppression, format, angle units). (a) every combination of constructor '
        'arguments, valid or not; (b) closure of the settings over all valid and invalid assignments by key and all valid '
        'ones by attribute, every transition replayed from a shortest history; (c) all assignment sequences up to a fixed '
        'length; (d) files of every class made with every settings, then all assignment sequences up to a fixed length, '
        'Gerber files written and read back after each; (e) files whose text states any settings, and files made with any: they '
        'are those stated, for formats of 0 to 7 digits on each side; (f) netlists which state units several times; outcome = state and history')
BOUNDS = {'quick': '96 states, 54 events; sequences <= 2 by (c), <= 2 by (d)', 'thorough': 'sequences <= 3 by (c), <= 3 by (d)'}
ASSUMPTIONS = ('attributes are assigned legal values (only items are validated)',)
LEGAL = {'notation': ['absolute', 'incremental'], 'units': ['inch', 'metric'],
         'zero_suppression': ['leading', 'trailing'], 'zeros': ['leading', 'trailing'],
         'format': [(2, 5), (3, 4), (6, 6)], 'angle_units': ['degrees', 'radians']}
ILLEGAL = {'notation': ['relative', None, 'Absolute', ''], 'units': ['mm', 'inches', None, 'METRIC'],
           'zero_suppression': ['none', None, 'Leading'], 'zeros': ['none', None, ''],
           'format': [(2,), (2, 3, 4), ()], 'angle_units': ['grad', None, 'degree']}
KEYS = ['notation', 'units', 'zero_suppression', 'format', 'angle_units']
OPP = {'leading': 'trailing', 'trailing': 'leading'}
DEFAULT = ('absolute', 'inch', 'trailing', (2, 5), 'degrees')
EVENTS = ([('item', k, v) for k in sorted(LEGAL) for v in LEGAL[k]] + [('attr', k, v) for k in sorted(LEGAL) for v in LEGAL[k]]
          + [('bad', k, v) for k in sorted(ILLEGAL) for v in ILLEGAL[k]] + [('bad', 'colour', 'red')])
FILE_EVENTS = [e for e in EVENTS if e[0] == 'attr' and e[1] != 'angle_units']
STATES = list(product(LEGAL['notation'], LEGAL['units'], LEGAL['zero_suppression'], LEGAL['format'], LEGAL['angle_units']))
GERBER = '%FSLAX24Y24*%\n%MOIN*%\n%ADD10C,0.5*%\nD10*\nX-15000Y0D02*\nX5000Y25000D01*\nX100Y-100D03*\nM02*\n'
DRILL = 'M48\nINCH,TZ\nT1C0.03\n%\nT1\nX015000Y-020000\nM30\n'


NET = {'CUST': ('inch', 'degrees'), 'CUST 0': ('inch', 'degrees'), 'CUST 1': ('metric', 'degrees'), 'CUST 2': ('inch', 'radians')}


def step(state, e):
    kind, k, v = e
    if kind == 'bad':
        return state
    if k == 'zeros':
        k, v = 'zero_suppression', OPP[v]
    s = list(state)
    s[KEYS.index(k)] = v
    return tuple(s)


def closure():
    traces = {DEFAULT: []}
    todo = [DEFAULT]
    for s in todo:
        for e in EVENTS:
            t = step(s, e)
            if t not in traces:
                traces[t] = traces[s] + [e]
                todo.append(t)
    return [(s, traces[s]) for s in todo]


def cases(tier):
    quick = tier == 'quick'
    opts = [[None] + LEGAL[k] + [v for v in ILLEGAL[k] if v is not None][:1] for k in KEYS[:4]]
    for n, u, z, f in product(*opts):
        for zeros in [None] + LEGAL['zeros'] + ['none']:
            for a in [None] + LEGAL['angle_units'] + ['grad']:
                yield ['new', n, u, z, f, zeros, a]
    for i in range(len(STATES)):
        for e in range(len(EVENTS)):
            yield ['step', i, e]
    for n in range(3 if quick else 4):
        for seq in product(range(len(EVENTS)), repeat=n):
            yield ['seq', list(seq)]
    for i, d in product(range(8), repeat=2):
        for n, u, z in product(*(LEGAL[k] for k in KEYS[:3])):
            if i + d:
                yield ['stated', 'gerber', n, u, z, [i, d]]
            if 0 < i < 7 and d and n == 'absolute':
                yield ['stated', 'drill', n, u, z, [i, d]]
            for cls in ('CamFile', 'GerberFile', 'ExcellonFile'):
                yield ['given', cls, n, u, z, [i, d]]
    for n in range(4 if quick else 5):
        for seq in product(sorted(NET), repeat=n):
            for pos in range(n + 1):
                yield ['netlist', list(seq), pos]
    for cls in ('CamFile', 'GerberFile', 'ExcellonFile'):
        for i in range(len(STATES)):
            for n in range(3 if quick else 4):
                if n == 3 and i % 24:
                    continue
                for seq in product(range(len(FILE_EVENTS)), repeat=n):
                    yield ['file', cls, i, list(seq)]


def make(s, **kw):
    from gerber.cam import FileSettings
    return FileSettings(notation=s[0], units=s[1], zero_suppression=s[2], format=s[3], angle_units=s[4], **kw)


def check_settings(fs, s, hist):
    from gerber.cam import FileSettings
    want = dict(zip(KEYS, s), zeros=OPP[s[2]])
    for k, v in want.items():
        if getattr(fs, k) != v or fs[k] != v:
            raise Violation('%s after %r' % (k, hist), v, (getattr(fs, k), fs[k]))
    try:
        fs['colour']
    except KeyError:
        pass
    else:
        raise Violation('an unknown key was read')
    same = make(s)
    if not (fs == same) or not (same == fs) or (fs != same):
        raise Violation('not equal to newly made settings after %r' % (hist,), str(same), str(fs))
    other = FileSettings(notation=s[0], units=s[1], zeros=OPP[s[2]], format=s[3], angle_units=s[4])
    if not (fs == other):
        raise Violation('not equal to settings made with the other convention of zeros', str(other), str(fs))
    for e in EVENTS:
        if e[0] == 'item':
            t = step(s, e)
            if (make(t) == fs) != (t == s):
                raise Violation('comparison with %r after %r' % (t, hist), t == s, make(t) == fs)
    if fs == same and str(fs) != str(same):
        raise Violation('text after %r' % (hist,), str(same), str(fs))


def apply(obj, e, hist):
    kind, k, v = e
    if kind == 'attr':
        setattr(obj, k, v)
        return
    try:
        obj[k] = v
    except (ValueError, KeyError) as x:
        if kind == 'item':
            raise
        if (k == 'colour') != isinstance(x, KeyError):
            raise Violation('kind of error for %r' % (e,), None, x)
    else:
        if kind == 'bad':
            raise Violation('%r was not refused after %r' % (e, hist))


def tup(x):
    return tuple(x) if isinstance(x, list) else x


def run(case, ctx):
    from gerber.cam import FileSettings
    ctx.trace()
    if case[0] == 'new':
        args = dict(zip(KEYS[:4], map(tup, case[1:5])), zeros=case[5], angle_units=case[6])
        args = dict((k, v) for k, v in args.items() if v is not None)
        s = list(DEFAULT)
        ok = True
        for k, v in args.items():
            if k not in ('zero_suppression', 'zeros'):
                ok = ok and v in LEGAL[k]
                s[KEYS.index(k)] = v
        z, zs = args.get('zeros'), args.get('zero_suppression')
        if z is not None and zs is not None:
            ok = ok and z != zs
            if ok and OPP.get(z) != zs:
                return None     # one of two conventions is not legal: nothing is documented
        if zs is not None:
            s[2] = zs if zs in OPP else 'leading'    # documented leniency
        elif z is not None:
            ok = ok and z in OPP
            s[2] = OPP.get(z)
        try:
            fs = FileSettings(**args)
        except ValueError:
            if ok:
                raise
            return 'refused', case[1:]
        if not ok:
            raise Violation('%r was accepted' % (args,), 'ValueError', str(fs))
        check_settings(fs, tuple(s), args)
        return tuple(s), case[1:]
    if case[0] == 'step':
        s, hist = closure()[case[1]]
        hist = hist + [EVENTS[case[2]]]
        fs = FileSettings()
        for e in hist:
            apply(fs, e, hist)
        t = step(s, EVENTS[case[2]])
        ctx.transition(s, EVENTS[case[2]], t)
        check_settings(fs, t, hist)
        return t, hist
    if case[0] == 'seq':
        fs, s = FileSettings(), DEFAULT
        twin = FileSettings()
        for i in case[1]:
            apply(fs, EVENTS[i], case[1])
            s = step(s, EVENTS[i])
        check_settings(fs, s, [EVENTS[i] for i in case[1]])
        check_settings(twin, DEFAULT, 'nothing')
        return s, case[1]
    if case[0] == 'stated':
        s = tuple(case[2:5]) + (tuple(case[5]), 'degrees')
        if case[1] == 'gerber':
            import gerber.rs274x
            text = '%%FS%s%sX%d%dY%d%d*%%\n%%MO%s*%%\nM02*\n' % (
                'L' if s[2] == 'leading' else 'T', s[0][0].upper(), s[3][0], s[3][1], s[3][0], s[3][1],
                'IN' if s[1] == 'inch' else 'MM')
            f = gerber.rs274x.loads(text)
        else:
            import gerber.excellon
            declared = ',%s.%s' % ('0' * s[3][0], '0' * s[3][1]) if sum(s[3]) % 2 == 0 or s[3] in ((4, 3), (2, 5)) else ''
            text = 'M48\n%s%s,%s%s\nT1C0.03\n%%\nT1\nX%sY%s\nM30\n' % (
                '' if declared else ';FILE_FORMAT=%d:%d\n' % s[3], s[1].upper(), 'TZ' if s[2] == 'leading' else 'LZ', declared,
                '0' * (sum(s[3]) - 1) + '1', '0' * sum(s[3]))
            f = gerber.excellon.loads(text)
        check_file(f, s, 'reading %r' % text)
        return s, case[1]
    if case[0] == 'netlist':
        # the last units a netlist states are its units, its angle units those of the same line
        import gerber
        from gerber import ipc356
        lines = ['P  UNITS %s' % u for u in case[1]]
        text = '\n'.join(lines[:case[2]] + ['P  JOB x'] + lines[case[2]:] + ['999', ''])
        units, angle = NET[case[1][-1]] if case[1] else NET['CUST']
        for f in (ipc356.loads(text), gerber.loads(text)):
            if (f.units, f.angle_units) != (units, angle):
                raise Violation('units of %r' % text, (units, angle), (f.units, f.angle_units))
            fs = f.settings
            if (fs.units, fs.angle_units) != (units, angle):
                raise Violation('settings of %r' % text, (units, angle), (fs.units, fs.angle_units))
            check_settings(fs, (fs.notation, units, fs.zero_suppression, fs.format, angle), text)
        return text
    if case[0] == 'given':
        s = tuple(case[2:5]) + (tuple(case[5]), 'degrees')
        check_file(make_file(case[1], s)[0], s, 'made with its settings')
        return s, case[1]
    _, cls, i, seq = case
    s = STATES[i]
    f, f0 = make_file(cls, s)
    s = s[:4] + ('degrees',)
    check_file(f, s, 'made with its settings')
    for k in seq:
        setattr(f, FILE_EVENTS[k][1], FILE_EVENTS[k][2])
        t = step(s, FILE_EVENTS[k])
        ctx.transition((cls, s), FILE_EVENTS[k], (cls, t))
        s = t
        check_file(f, s, [FILE_EVENTS[k] for k in seq])
    if cls == 'GerberFile' and s[0] == 'absolute' and s[1] == 'inch':
        import os
        from mc import gdocs as D
        path = os.path.join(ctx.scratch, 'p24.gbr')
        f.write(path)
        import gerber.rs274x
        g = gerber.rs274x.read(path)
        check_file(g, s, 'writing and reading')
        if [p.bounding_box for p in g.primitives] != [p.bounding_box for p in f0.primitives]:
            raise Violation('objects after writing with %r' % (s,), [p.bounding_box for p in f0.primitives],
                            [p.bounding_box for p in g.primitives])
    if cls == 'ExcellonFile':
        if set(p.units for p in f.primitives) != {s[1]}:
            raise Violation('units of the objects', s[1], [p.units for p in f.primitives])
    return cls, s, seq


def make_file(cls, s):
    if cls == 'GerberFile':
        import gerber.rs274x
        f0 = gerber.rs274x.loads(GERBER)
        return gerber.rs274x.GerberFile(f0.statements, make(s), f0.primitives, f0.apertures), f0
    if cls == 'ExcellonFile':
        import gerber.excellon
        f0 = gerber.excellon.loads(DRILL)
        return gerber.excellon.ExcellonFile(f0.statements, f0.tools, f0.hits, make(s)), f0
    from gerber.cam import CamFile
    return CamFile(settings=make(s)), None


def check_file(f, s, hist):
    want = dict(zip(KEYS[:4], s), zeros=OPP[s[2]])
    for k, v in want.items():
        if getattr(f, k) != v:
            raise Violation('%s of the file: %r' % (k, hist), v, getattr(f, k))
    check_settings(f.settings, s, hist)
