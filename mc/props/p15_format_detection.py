"""P15: what a drill file declares about its numbers is always obeyed, by every way of reading it."""
from itertools import product

from mc import emodel as E
from mc import espace as S
from mc import gmodel as G
from mc.core import Violation

PID = 'P15'
LEVEL = 'exploration'
RULE = ('every combination of declaration forms (units, zeros, format; by unit statement, M71/M72, FMAT, FILE_FORMAT '
        'comment or not at all) x body x layout, read through every entry point; with complete declarations the holes '
        'must equal the model, with partial ones they must equal the model under one admissible completion, the same '
        'for all entry points and layouts; outcome = (declarations, format and zeros used, holes)')
BOUNDS = {'quick': '3 unit forms x 2 units x 3 zero forms x 7 format forms x orders x 6 bodies x 7 layouts x 5 entry points',
          'thorough': 'the same with 12 bodies, 11 layouts'}
ASSUMPTIONS = ('undeclared formats are one of 2:4, 2:5, 3:3; undeclared zeros either convention',
               'units are declared', 'a unit statement without LZ/TZ keeps trailing zeros')
FORMAT_FORMS = ('none', 'unit24', 'unit33', 'unit42', 'unit43', 'unit25', 'fmat1', 'fmat2', 'ff25', 'ff33', 'ff24')
LAYOUTS = ('plain', 'crlf', 'blank', 'short', 'comments', 'decimal', 'eagle')
BODIES = [['holes'], ['holes2'], ['g85'], ['rout'], ['repeat'], ['zero', 'holes2']]
MORE = [['rout2'], ['inc'], ['next'], ['holes', 'holes2'], ['rout3', 'holes'], ['g85', 'repeat']]


def forms():
    for u in ('INCH', 'METRIC'):
        for z in ('LZ', 'TZ', None):
            for ff in FORMAT_FORMS:
                for order in (0, 1):
                    yield u, z, ff, order, 'unit'
        for ff in FORMAT_FORMS:
            if not ff.startswith('unit'):
                yield u, None, ff, 0, 'M7x'


def cases(tier):
    quick = tier == 'quick'
    for form in forms():
        for b in range(len(BODIES) if quick else len(BODIES) + len(MORE)):
            # the layouts of one document are compared with each other in run()
            yield list(form) + [b, sorted(LAYOUTS) if quick else sorted(S.STYLES)]


def header(u, z, ff, order, how):
    fmt = None
    extra = []
    if ff.startswith('unit'):
        fmt = [int(ff[4]), int(ff[5])]
    elif ff.startswith('fmat'):
        extra = [['FMAT', int(ff[4])]]
    elif ff.startswith('ff'):
        extra = [['FF', int(ff[2]), int(ff[3])]]
    unit = [['u', u, z, fmt]] if how == 'unit' else [['M72' if u == 'INCH' else 'M71']]
    h = [['M48']] + (unit + extra if order else extra + unit)
    return h


def entry_points(gerber, excellon, path, text):
    from gerber.cam import FileSettings
    det = excellon.detect_excellon_format(text)
    det2 = excellon.detect_excellon_format(filename=path)
    if det != det2:
        raise Violation('detection differs between text and file', det, det2)
    yield 'excellon.read', excellon.read(path)
    yield 'excellon.loads', excellon.loads(text)
    yield 'gerber.read', gerber.read(path)
    yield 'gerber.loads', gerber.loads(text)
    yield 'ExcellonParser', excellon.ExcellonParser(FileSettings(**det)).parse(path)


def run(case, ctx):
    import gerber
    from gerber import excellon
    u, z, ff, order, how, b, layouts = case
    body = (BODIES + MORE)[b]
    cmds = header(u, z, ff, order, how) + [['T', n, S.TOOLS[n]] for n in (1, 2)] + [['%']]
    for p in body:
        cmds = cmds + S.PIECES[p]
    cmds = cmds + [['M30']]
    declared_zeros = {'LZ': 'T', 'TZ': 'L'}.get(z, 'L' if how == 'unit' else None)
    ref = E.interpret(cmds)
    seen = {}
    used_formats = set()
    for lay in layouts:
        style = S.STYLES[lay]
        # the author of the file had some format in mind
        for fmt, zeros in ([(ref.fmt, declared_zeros)] if ff != 'none' and declared_zeros else
                           [(f, zz) for f in ([(2, 4), (2, 5), (3, 3)] if ff == 'none' else [ref.fmt])
                            for zz in ('LT' if declared_zeros is None else declared_zeros)]):
            author = [['FF', fmt[0], fmt[1]]] if ff == 'none' else []
            pre = [['u', u, 'TZ' if zeros == 'L' else 'LZ', None]] if declared_zeros is None else []
            text = E.render(pre + author + cmds, style)
            # drop what the author did not write down
            for c in pre + author:
                cut = E.render([c], style)
                assert text.startswith(cut)
                text = text[len(cut):]
            path = ctx.scratch + '/d.drl'
            with open(path, 'w', newline='') as fh:
                fh.write(text)
            det = excellon.detect_excellon_format(text)
            if declared_zeros and det['zeros'] != {'L': 'trailing', 'T': 'leading'}[declared_zeros]:
                raise Violation('zeros detected although declared\nprogram:\n%s' % text, declared_zeros, det)
            if ff != 'none' and tuple(det['format']) != tuple(ref.fmt):
                raise Violation('format detected although declared\nprogram:\n%s' % text, ref.fmt, det)
            results = []
            for name, f in entry_points(gerber, excellon, path, text):
                hits = E.file_hits(f)
                s = f.settings
                results.append((name, hits, (s.units, tuple(s.format), s.zero_suppression)))
            ctx.trace()
            for name, hits, st in results[1:]:
                if hits != results[0][1] or st != results[0][2]:
                    raise Violation('%s disagrees with %s\nprogram:\n%s' % (name, results[0][0], text), results[0], (name, hits, st))
            _, hits, (units, gf, gz) = results[0]
            if units != ref.units:
                raise Violation('units\nprogram:\n%s' % text, ref.units, units)
            if ff != 'none' and gf != ref.fmt:
                raise Violation('declared format not used\nprogram:\n%s' % text, ref.fmt, gf)
            if declared_zeros and gz != {'L': 'leading', 'T': 'trailing'}[declared_zeros]:
                raise Violation('declared zeros not used\nprogram:\n%s' % text, declared_zeros, gz)
            if gf not in ((2, 4), (2, 5), (3, 3)) and ff == 'none':
                raise Violation('detected format\nprogram:\n%s' % text, None, gf)
            want = E.model_hits(ref)
            if (ff != 'none' and declared_zeros) or style.decimal or \
                    (gf, gz) == (fmt, {'L': 'leading', 'T': 'trailing'}[zeros]):
                if not G.same(want, hits):
                    raise Violation('wrong holes (%s): %s\nprogram:\n%s' % (lay, G.first_difference(want, hits), text),
                                    G.show(want), G.show(hits))
            elif len(hits) != len(want):
                raise Violation('number of holes (%s)\nprogram:\n%s' % (lay, text), len(want), len(hits))
            # equivalent layouts are detected alike
            if not style.decimal:
                key = (fmt, zeros)
                seen.setdefault(key, (lay, gf, gz))
                if seen[key][1:] != (gf, gz):
                    raise Violation('layout %s is detected differently from %s\nprogram:\n%s' % (lay, seen[key][0], text),
                                    seen[key], (gf, gz))
            used_formats.add((gf, gz))
    return repr((u, z, ff, how, sorted(used_formats)))
