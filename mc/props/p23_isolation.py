"""P23: reading and querying are pure, and one file never affects another."""
import ast
import os
import re
import shutil
import tempfile
from itertools import combinations, product

from mc import emodel as E
from mc import espace as S
from mc import gdocs as D
from mc import gmodel as G
from mc import raster as R
from mc.core import Context, Violation, digest

PID = 'P23'
LEVEL = 'model_checking'
RULE = ('(a) every interleaving of two histories (read, then operations) of two handles (files of the same or of different '
        'kinds, netlists, boards, directories, rendering contexts), every result and both final states being those of the history run '
        'alone (the shortest ones in a new process), and every history of a context that is cleared or draws a board of several '
        'layers being that of a new one; (b) the same for a file and a copy or a copying operation of it; (c) every sequence of queries after a '
        'conversion or translation: each result is that of the query alone and the file stays as it was read; (d) every '
        'sequence of boards with internal layers rendered with a theme; model state = the histories run so far; '
        'outcome = the final states')
BOUNDS = {'quick': '(a) 8 operations, histories of 1 or 2 and 1 operations, 31 pairs of handles; (b) 1 and 1; (c) pairs of 20 '
                   'queries, 12 documents, 4 preludes; (d) <= 3 boards of 0, 1, 3, 8, 9 or 12 internal layers, 6 themes',
          'thorough': '(a) histories of 2 and 1 operations for all pairs and of 2 and 2 for one; (b) 7 preludes, 1 and 2 for two '
                      'documents; (c) triples of queries for two documents; (d) <= 4 boards of one theme'}
ASSUMPTIONS = ('files of a handle are only used through that handle', 'each file is rendered on a context of its own')
GDOCS = {'ga': (('IN', (2, 4), 'L'), ['c', 'r', 'TRI'], ['line', 'APS']),
         'gb': (('MM', (3, 3), 'T'), ['o', 'BOX', 'BOX2'], ['region', 'APS']),
         'gc': (('IN', (2, 4), 'L'), ['c', 'TRI2', 'DONUT'], ['arcm', 'clear', 'APS']),
         'gd': (('MM', (2, 5), 'L'), ['ph', 'rhh', 'THERM'], ['APS', 'flash']),
         'ge': (('IN', (2, 4), 'T'), ['c'], ['regarc', 'circ', 'clearline', 'arcs']),
         'gf': (('IN', (2, 4), 'L'), ['TARGET', 'CROSS', 'VEC', 'POLY'], ['APS'])}
EDOCS = {'ea': ('inTZ24', ['holes', 'g85']), 'eb': ('mmTZ33', ['rout2', 'holes2']), 'ec': ('inLZ24', ['inc', 'rout']),
         'ed': ('mmLZ33', ['repeat', 'zero']), 'ee': ('bare', ['holes', 'rout3'])}
IDOCS = {'ia': ['P  JOB a', 'P  UNITS CUST 0', 'P  NNAME1 A_LONG_NET_NAME', ('rec', 'GND', 'VIA', None, 0, 0, -5),
                ('rec', 'NNAME1', 'R1', '1', 1, 50, 60), ('adj', ['GND', 'NNAME1'])],
         'ib': ['P  JOB b', 'P  UNITS CUST 1', ('rec', 'NNAME1', 'C2', '2', 8, 700, 20), ('rec', 'GND', 'C1', '2', 0, 7, 2)]}
BOARDS = {'ba': ['top', 'topmask', 'drill', 'bottom', 'topsilk', 'internal', 'internal', 'outline'],
          'bb': ['bottommask', 'internal', 'top', 'drill', 'bottomsilk']}
FOLDERS = {'da': [('board.gtl', 'ga'), ('board.gbl', 'gc'), ('other.drl', 'ea'), ('net.ipc', 'ia'), ('readme', None)],
           'db': [('board.comp', 'ge'), ('board.gko', 'gb'), ('board.smt', 'gd'), ('drill.exc', 'eb')]}
GUESSED = ['x.comp', 'art.cmp', 'a.top', 'bottom', 'board-outline.gbr', 'x.sst', 'x.smt', 'x.g2', 'x.gtp', 'x.pastebot', 'top.ipc',
           'mask.drl', 'drill.txt', 'x.gm1', 'x.fab', 'x.xyz', 'gtl', 'x-B.Cu.gbr', 'x.gtl', 'x.ipc', 'x.outline', 'x.topmask',
           'x.drill', 'x.internal', 'x.in2', 'ipc_netlist.top']
HANDLES = {'g': sorted(GDOCS), 'e': sorted(EDOCS), 'i': sorted(IDOCS), 'b': sorted(BOARDS), 'x': ['xa', 'xb'], 'd': ['da', 'db']}
MUT = {'g': ['inch', 'metric', 'offset', 'write', 'write45', 'render', 'backend'],
       'e': ['inch', 'metric', 'offset', 'write', 'tool', 'render', 'layer'],
       'i': ['nets', 'parts', 'records', 'render'],
       'b': ['top', 'bottom', 'copper', 'drill', 'bounds', 'picture'],
       'x': ['l0', 'l1', 'l2', 'l3', 'clear', 'png'],
       'd': ['again', 'named', 'guess', 'signatures', 'load', 'views']}
PAIRS = [('ga', 'ga'), ('ga', 'gb'), ('gb', 'gc'), ('ga', 'gc'), ('gd', 'gf'), ('ge', 'ga'), ('ga', 'ea'), ('ea', 'ea'),
         ('ea', 'eb'), ('eb', 'ec'), ('ed', 'ee'), ('eb', 'ga'), ('ec', 'gb'), ('ia', 'ib'), ('ib', 'ia'), ('ia', 'ga'),
         ('ib', 'eb'), ('ba', 'bb'), ('bb', 'ba'), ('ba', 'ga'), ('ea', 'bb'), ('xa', 'xb'), ('xb', 'xa'), ('xa', 'ba'),
         ('xb', 'gd'), ('da', 'db'), ('db', 'da'), ('da', 'ba'), ('db', 'ga'), ('ia', 'da'), ('xa', 'db')]
LONG = [('ga', 'ga'), ('gb', 'gc'), ('ea', 'ea'), ('ea', 'eb'), ('xa', 'xb'), ('ba', 'bb')]
QUERIES = {'g': ['bounds', 'bbox', 'size', 'comments', 'write', 'write45', 'write36T', 'render', 'renderinv', 'backend',
                 'layer', 'prims', 'equal', 'copy', 'c-inch', 'c-metric', 'c-offset', 'strings', 'statements', 'settings'],
           'e': ['bounds', 'bbox', 'primitives', 'report', 'path', 'path1', 'hits', 'hits2', 'write', 'render', 'backend',
                 'layer', 'copy', 'c-inch', 'c-metric', 'c-offset', 'strings', 'statements', 'settings', 'hitboxes']}
PRELUDES = [[], ['inch'], ['metric'], ['offset']]
INTERNAL = [0, 1, 3, 8, 9, 12]
THEMES = ['default', 'OSH Park', 'Blue', 'Transparent Copper', 'Transparent Multilayer', 'own']


def hists(kind, n):
    for k in range(n + 1):
        for h in product(MUT[kind], repeat=k):
            yield list(h)


def cases(tier):
    quick = tier == 'quick'
    for a, b in PAIRS:
        for ha in hists(a[0], 2 if (a, b) in LONG or not quick else 1):
            for hb in hists(b[0], 2 if not quick and (a, b) in LONG[:1] else 1):
                yield ['pair', a, b, ha, hb]
    for a in HANDLES['g'] + HANDLES['e']:
        for op in ('deepcopy', 'inch', 'metric', 'offset'):
            for pre in ([[], ['metric'], ['offset']] if quick else hists(a[0], 1)):
                for ha in hists(a[0], 1):
                    for hb in hists(a[0], 2 if not quick and a in ('ga', 'ea') and pre == [] else 1):
                        yield ['copy', a, op, pre, ha, hb]
    for a in HANDLES['g'] + HANDLES['e']:
        for pre in PRELUDES:
            for qs in product(QUERIES[a[0]], repeat=3 if not quick and a in ('ga', 'ea') and pre == [] else 2):
                yield ['query', a, pre, list(qs)]
    draw = MUT['x'][:4]
    for a in HANDLES['x']:
        for n in (1, 2) if quick else (1, 2, 3):
            for pre in product(draw + ['png'], repeat=n):
                yield ['reuse', a, list(pre) + ['board']]
                for m in (1, 2):
                    for post in product(draw, repeat=m):
                        yield ['reuse', a, list(pre) + ['clear'] + list(post)]
        yield ['reuse', a, ['board', 'board']]
        yield ['reuse', a, ['board', 'clear', 'board']]
    for theme in THEMES:
        for n in range(1, 4 if quick or theme != 'own' else 5):
            for boards in product(INTERNAL, repeat=n):
                yield ['theme', theme, list(boards)]


# ------------------------------------------------------------------------------------------------ sources
def gprogram(name):
    head, aps, pieces = GDOCS[name]
    cmds = D.head(*(head + (aps,))) + [['D', 10], ['c', None, 0, 0, None, None, 'D02']]
    if 'c' not in aps:
        pieces = [p for p in pieces if p in ('APS', 'flash', 'region')]
    for p in pieces:
        if p == 'APS':
            for n in range(len(aps)):
                cmds += [['D', 10 + n], ['c', None, 4 * n, 2 * n, None, None, 'D03']]
            cmds += [['D', 10]]
        else:
            cmds += D.PIECES[p]
    return cmds


_texts = {}


def text_of(name):
    if name not in _texts:
        _texts[name] = make_text(name)
    return _texts[name]


def make_text(name):
    if name in GDOCS:
        return D.text_of(gprogram(name))
    if name in EDOCS:
        return E.render(S.document(*EDOCS[name]))
    from mc.props import p16_netlist as N
    return '\n'.join(N.line_text(l) for l in IDOCS[name]) + '\n999\n'


def model(name, hist):
    """(objects, units) of a Gerber or drill file after conversions and translations; None if a tool was changed"""
    if name in GDOCS:
        g = D.build(gprogram(name))
        units = {'IN': 'inch', 'MM': 'metric'}[GDOCS[name][0][0]]
    else:
        g = E.interpret(S.document(*EDOCS[name]))
        units = g.units
    k, dx, dy = 1.0, 0.0, 0.0
    for op in hist:
        f = {('inch', 'metric'): 1 / 25.4, ('metric', 'inch'): 25.4}.get((op, units))
        if f is not None:
            k, dx, dy, units = k * f, dx * f, dy * f, op
        elif op == 'offset':
            dx, dy = dx + 0.5, dy - 0.25
        elif op == 'tool':
            return None
    objs = D.transform(g.out, k, dx, dy) if name in GDOCS else E.model_hits(g, k, dx, dy)
    return objs, units


class Handle(object):
    """one file, board or context, and what is done with it"""

    def __init__(self, name, ctx, obj=None):
        self.name, self.kind, self.ctx, self.obj = name, name[0], ctx, obj
        self.out = []
        self.tag = name

    def path(self, name='out'):
        return os.path.join(self.ctx.scratch, name)

    def read(self):
        import gerber
        from gerber.pcb import PCB
        from gerber.render.cairo_backend import GerberCairoContext
        if self.kind == 'd':
            d = self.path(self.name)
            if not os.path.isdir(d):
                os.mkdir(d)
                for name, text in FOLDERS[self.name]:
                    with open(os.path.join(d, name), 'w') as f:
                        f.write(text_of(text) if text else 'nothing\n')
            self.obj = PCB.from_directory(d)
        elif self.kind == 'b':
            self.obj = PCB(make_layers(BOARDS[self.name], self.name), self.name)
        elif self.kind == 'x':
            self.obj = GerberCairoContext(7)
            self.layers = make_layers(['top', 'drill', 'bottom', 'topmask'], self.name)
        else:
            self.obj = gerber.loads(text_of(self.name), self.name + '.txt')
        return self

    def do(self, op):
        self.out.append(getattr(self, 'op_' + self.kind)(op))

    # operations
    def op_g(self, op):
        return self.file_op(op)

    op_e = op_g

    def file_op(self, op):
        f = self.obj
        if op == 'inch':
            f.to_inch()
        elif op == 'metric':
            f.to_metric()
        elif op == 'offset':
            f.offset(0.5, -0.25)
        elif op == 'tool':
            f.update_tool(1, diameter=0.75, feed_rate=5)
        else:
            return query(self, op)

    def op_i(self, op):
        f = self.obj
        if op == 'nets':
            return sorted((n.name, sorted(n.adjacent_nets)) for n in f.nets)
        if op == 'parts':
            return sorted(f.components), f.vias, f.comments and [c.comment for c in f.comments]
        if op == 'records':
            return [str(s) for s in f.statements]
        from gerber.render.cairo_backend import GerberCairoContext
        rec = Recorder()
        f.render(rec)
        return rec.seen

    def op_b(self, op):
        p = self.obj
        if op == 'bounds':
            return p.board_bounds
        if op == 'picture':
            from gerber.render.cairo_backend import GerberCairoContext
            import io
            out = io.BytesIO()
            GerberCairoContext().render_layers(p.top_layers + p.copper_layers, out, max_width=40, max_height=40)
            return digest(repr(R.read_png(out.getvalue())))
        return [l.layer_class for l in getattr(p, op + '_layers')]

    def op_d(self, op):
        from gerber import layers
        from gerber.pcb import PCB
        d = self.path(self.name)
        if op in ('again', 'named'):
            p = PCB.from_directory(d, 'my' if op == 'named' else None)
            return p.name, [(os.path.basename(l.filename), l.layer_class, l.bounds) for l in p.layers]
        if op == 'guess':
            return [layers.guess_layer_class(n) for n in GUESSED]
        if op == 'signatures':
            return [(c, sorted(layers.layer_signatures(c))) for c in ('top', 'bottom', 'internal', 'topmask', 'bottommask',
                                                                      'topsilk', 'drill', 'outline', 'ipc_netlist', 'none')]
        if op == 'load':
            return [layers.load_layer(os.path.join(d, n)).layer_class for n, text in FOLDERS[self.name] if text]
        p = self.obj
        return [[l.layer_class for l in v] for v in (p.top_layers, p.bottom_layers, p.copper_layers, p.drill_layers, p.layers)]

    def op_x(self, op):
        from gerber.render.render import RenderSettings
        c = self.obj
        if op == 'clear':
            c.clear()
        elif op == 'png':
            return self.png()
        elif op == 'board':
            import io
            out = io.BytesIO()
            c.render_layers(self.layers, out, max_width=50, max_height=40)
            return digest(repr(R.read_png(out.getvalue())))
        else:
            n = int(op[1])
            settings = [RenderSettings((1.0, 0.5, 0.0)), RenderSettings((0.0, 0.0, 0.5), alpha=0.5),
                        RenderSettings((0.0, 0.5, 0.0), mirror=True), RenderSettings((0.5, 0.0, 0.5), invert=True, alpha=0.75)]
            c.render_layer(self.layers[n], settings=settings[n], bgsettings=RenderSettings((0.2, 0.2, 0.2)))

    def png(self):
        if self.obj.surface is None:
            return None
        return digest(repr(R.read_png(self.obj.dump_str())))

    def state(self):
        f = self.obj
        if self.kind == 'b':
            return f.name, [self.op_b(op) for op in MUT['b'][:-1]], [l.layer_class for l in f.layers], \
                [snapshot(l.cam_source) for l in f.layers], [l.filename for l in f.layers]
        if self.kind == 'd':
            return f.name, f.board_bounds, f.layer_count, [os.path.basename(l.filename) for l in f.layers], self.op_d('views'), \
                self.op_d('guess')
        if self.kind == 'x':
            return self.png(), [snapshot(l.cam_source) for l in self.layers]
        if self.kind == 'i':
            return f.units, f.angle_units, f.filename, [self.op_i(op) for op in MUT['i']]
        return snapshot(f)


class Recorder(object):
    def __init__(self):
        self.seen = []

    def render(self, p):
        self.seen.append((p.net_name, p.position, p.layer))

    def dump(self, filename):
        pass


def snapshot(f):
    """all that a file says about itself"""
    out = [type(f).__name__, f.filename, f.units, f.format, f.zeros, f.zero_suppression, f.notation,
           repr(f.bounds), repr(f.bounding_box)]
    if type(f).__name__ == 'GerberFile':
        out += [repr(G.canon_file(f)), [repr(G.canon_aperture(a)) for a in f.apertures], [a.units for a in f.apertures],
                sorted(D.units_of(f)), [s.to_gerber(f.settings) for s in f.statements], [s.units for s in f.statements]]
    else:
        out += [repr(E.file_hits(f)), repr(E.tool_list(f)), [s.to_excellon(f.settings) for s in f.statements],
                [(p.units, p.diameter) for p in f.primitives], [s.units for s in f.statements],
                [(t.settings.units, t.feed_rate, t.rpm) for t in f.tools.values()]]
    return out


def query(h, q):
    import copy
    from gerber import operations
    from gerber.cam import FileSettings
    from gerber.layers import PCBLayer
    f = h.obj
    if q == 'bounds':
        return f.bounds
    if q == 'bbox':
        return f.bounding_box
    if q == 'size':
        return f.size
    if q == 'comments':
        return f.comments
    if q[:5] == 'write':
        path = h.path('query.txt')
        if h.kind == 'e':
            f.write(path)
        else:
            f.write(path, {'write': None, 'write45': FileSettings(format=(4, 5), units=f.units),
                           'write36T': FileSettings(format=(3, 6), zero_suppression='trailing', units=f.units)}[q])
        with open(path) as fp:
            return fp.read()
    if q[:6] == 'render':
        from gerber.render.cairo_backend import GerberCairoContext
        c = GerberCairoContext(6 if f.units == 'inch' else 2)
        f.render(c, invert=q != 'render')
        return digest(repr(R.read_png(c.dump_str())))
    if q == 'backend':
        if h.kind == 'g':
            from gerber.render.rs274x_backend import Rs274xContext
            c = Rs274xContext(FileSettings(format=(4, 6), units=f.units))
        else:
            from gerber.render.excellon_backend import ExcellonContext
            c = ExcellonContext(FileSettings(format=(3, 5), units=f.units))
        for p in f.primitives:
            c.render(p)
        if h.kind == 'e':
            return [s.to_excellon(c.settings) for s in c.statements]
        return c.dump().getvalue()
    if q == 'layer':
        l = PCBLayer.from_cam(f)
        return l.layer_class, l.bounds, len(l.primitives)
    if q == 'prims':
        out = []
        for p in f.primitives:
            out.append([repr(getattr(p, a, None)) for a in ('bounding_box', 'bounding_box_no_aperture', 'vertices', 'position',
                                                            'flashed', 'sweep_angle', 'start_angle', 'angle', 'radius',
                                                            'width', 'height', 'lower_left', 'axis_aligned_width')])
        return out
    if q == 'equal':
        return [p == r for p in f.primitives for r in f.primitives]
    if q == 'copy':
        return snapshot(copy.deepcopy(f))
    if q[:2] == 'c-':
        g = {'inch': operations.to_inch, 'metric': operations.to_metric,
             'offset': lambda x: operations.offset(x, 1.5, -2)}[q[2:]](f)
        return snapshot(g)
    if q == 'strings':
        return [re.sub(' at 0x[0-9a-f]+', '', str(s)) for s in f.statements]
    if q == 'statements':
        return [s.to_gerber(f.settings) if h.kind == 'g' else s.to_excellon(f.settings) for s in f.statements]
    if q == 'settings':
        s = f.settings
        s.units = 'inch' if s.units == 'metric' else 'metric'
        s.format = (5, 5)
        s.notation = 'incremental'
        s = f.settings
        return s.units, s.format, s.notation, s.zeros, s.zero_suppression
    if q == 'primitives':
        return [(p.position if hasattr(p, 'position') else (p.start, p.end), p.diameter, p.units, p.bounding_box)
                for p in f.primitives]
    if q == 'report':
        return f.report(h.path('report.txt'))
    if q == 'path':
        return f.path_length()
    if q == 'path1':
        return f.path_length(1)
    if q == 'hits':
        return f.hit_count()
    if q == 'hits2':
        return f.hit_count(2)
    if q == 'hitboxes':
        return [x.bounding_box for x in f.hits]
    raise KeyError(q)


def make_layers(classes, tag):
    """layers of a board, each with a file of its own"""
    import gerber
    from gerber.layers import DrillLayer, InternalLayer, PCBLayer
    out = []
    names = ['ga', 'ge', 'gc'] if tag[1] == 'a' else ['gc', 'ga', 'ge']
    for n, c in enumerate(classes):
        if c == 'drill':
            out.append(DrillLayer('%s%d.drl' % (tag, n), gerber.loads(text_of('ea'))))
        elif c == 'internal':
            out.append(InternalLayer('%s%d.g' % (tag, n), gerber.loads(text_of(names[n % 3])), order=-n))
        else:
            out.append(PCBLayer('%s%d.gbr' % (tag, n), c, gerber.loads(text_of(names[n % 3]))))
    return out


# -------------------------------------------------------------------------------------------------- runs
_alone = {}


def prepare(tier):
    """each short history and each query of a file just read, in a process of its own which has done nothing before"""
    keys = [(name, tuple(h)) for kind in sorted(HANDLES) for name in HANDLES[kind] for h in hists(kind, 1)]
    keys += [('query', name, (), q) for kind in 'ge' for name in HANDLES[kind] for q in QUERIES[kind]]
    n = int(os.environ.get('MC_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    root = tempfile.mkdtemp(prefix='mcalone.')
    try:
        left, running = list(enumerate(keys)), {}
        while left or running:
            while left and len(running) < n:
                k, key = left.pop()
                pid = os.fork()
                if pid == 0:
                    pristine(key, os.path.join(root, '%d' % k))
                running[pid] = None
            running.pop(os.wait()[0], None)
        for k, key in enumerate(keys):
            path = os.path.join(root, '%d' % k)
            if os.path.exists(path):    # a history which fails does so again where it is needed
                with open(path) as f:
                    _alone[key] = ast.literal_eval(f.read())
    finally:
        shutil.rmtree(root, ignore_errors=True)


def pristine(key, path):
    try:
        os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
        ctx = Context('quick', 1)
        try:
            if key[0] == 'query':
                got = repr(query(Handle(key[1], ctx).read(), key[3]))
            else:
                got = alone(key[0], list(key[1]), ctx)
        finally:
            ctx.cleanup()
        with open(path + '.new', 'w') as f:
            f.write(repr(got))
        os.rename(path + '.new', path)
    except BaseException:
        pass
    finally:
        os._exit(0)


def alone(name, hist, ctx):
    """(results, state) of a history run on its own; what can be is compared with the models"""
    key = name, tuple(hist)
    if key not in _alone:
        h = Handle(name, ctx).read()
        for op in hist:
            h.do(op)
        if h.kind in 'ge':
            m = model(name, hist)
            if m is not None:
                bad = D.compare(m[0], h.obj) if h.kind == 'g' else \
                    (None if G.same(m[0], E.file_hits(h.obj), 1e-9, 1e-9) else 'hits %s' % E.file_hits(h.obj))
                if bad or h.obj.units != m[1]:
                    raise Violation('%s after %s: %s' % (name, hist, bad or 'units'), m, h.obj.units)
        _alone[key] = repr(h.out), repr(h.state())
        ctx.trace()
    return _alone[key]


def differ(what, exp, got):
    if exp != got:
        n = next((i for i, (a, b) in enumerate(zip(exp, got)) if a != b), min(len(exp), len(got)))
        raise Violation('%s (first difference at character %d)' % (what, n), exp[max(0, n - 60):n + 140],
                        got[max(0, n - 60):n + 140])


def interleavings(n, m):
    for spots in combinations(range(n + m), n):
        yield ['a' if k in spots else 'b' for k in range(n + m)]


def run(case, ctx):
    if case[0] == 'pair':
        _, a, b, ha, hb = case
        ea, eb = alone(a, ha, ctx), alone(b, hb, ctx)
        for order in interleavings(len(ha) + 1, len(hb) + 1):
            hs = {'a': Handle(a, ctx), 'b': Handle(b, ctx)}
            todo = {'a': ['read'] + ha, 'b': ['read'] + hb}
            state = (a, b, 0, 0)
            ctx.state(state)
            for who in order:
                op = todo[who].pop(0)
                if op == 'read':
                    hs[who].read()
                else:
                    hs[who].do(op)
                new = (a, b, tuple(todo['a']), tuple(todo['b']))
                ctx.transition(state, who, new)
                state = new
            ctx.trace()
            for who, exp, hist in (('a', ea, ha), ('b', eb, hb)):
                what = '%s after %s, interleaved as %s with %s' % (hs[who].name, hist, ''.join(order), (b, hb) if who == 'a'
                                                                   else (a, ha))
                differ('results of ' + what, exp[0], repr(hs[who].out))
                differ('state of ' + what, exp[1], repr(hs[who].state()))
        return repr((ea, eb))
    if case[0] == 'copy':
        return run_copy(case, ctx)
    if case[0] == 'reuse':
        _, a, hist = case
        n = len(hist) - 1 if hist[-1] == 'board' else hist.index('clear') + 1
        h = Handle(a, ctx).read()
        for op in hist:
            h.do(op)
        ctx.trace()
        exp = alone(a, hist[n:], ctx)
        differ('pictures of a context after %s' % hist, exp[0], repr(h.out[n:]))
        differ('picture of a context after %s' % hist, exp[1], repr(h.state()))
        return exp
    if case[0] == 'query':
        _, a, pre, qs = case
        h = Handle(a, ctx).read()
        for op in pre:
            h.do(op)
        fresh = alone(a, pre, ctx)
        for n, q in enumerate(qs):
            got = repr(query(h, q))
            key = ('query', a, tuple(pre), q)
            if key not in _alone:
                t = Handle(a, ctx).read()
                for op in pre:
                    t.do(op)
                _alone[key] = repr(query(t, q))
            differ('result of %s after %s on %s %s' % (q, qs[:n], a, pre), _alone[key], got)
        ctx.trace()
        differ('state of %s %s after %s' % (a, pre, qs), fresh[1], repr(h.state()))
        return _alone[key]
    return run_theme(case, ctx)


def run_copy(case, ctx):
    import copy
    from gerber import operations
    _, a, op, pre, ha, hb = case
    hist_b = pre + ([] if op == 'deepcopy' else [op]) + hb
    ea, eb = alone(a, pre + ha, ctx), alone(a, hist_b, ctx)
    make = {'deepcopy': copy.deepcopy, 'inch': operations.to_inch, 'metric': operations.to_metric,
            'offset': lambda f: operations.offset(f, 0.5, -0.25)}[op]
    for order in interleavings(len(ha), len(hb)):
        x = Handle(a, ctx).read()
        for o in pre:
            x.do(o)
        y = Handle(a, ctx, make(x.obj))
        y.out = list(x.out) + ([] if op == 'deepcopy' else [None])
        todo = {'a': list(ha), 'b': list(hb)}
        for who in order:
            {'a': x, 'b': y}[who].do(todo[who].pop(0))
        ctx.trace()
        for h, exp, hist in ((x, ea, pre + ha), (y, eb, hist_b)):
            what = '%s %s after %s, interleaved as %s' % ('original' if h is x else 'copy', a, hist, ''.join(order))
            differ('results of ' + what, exp[0], repr(h.out))
            differ('state of ' + what, exp[1], repr(h.state()))
    return repr((ea, eb))


def board_of(n):
    """layers of a board whose n internal layers each show something in a place of their own"""
    from gerber import rs274x
    from gerber.layers import InternalLayer, PCBLayer
    head = '%FSLAX24Y24*%\n%MOIN*%\n%ADD10R,0.8X0.8*%\nD10*\n'
    edge = rs274x.loads(head + 'X-10000Y-10000D02*\nX150000Y20000D02*\nM02*\n')
    out = [PCBLayer('edge', 'unknown', edge)]
    for k in range(n):
        out.append(InternalLayer('i%d' % k, rs274x.loads(head + 'X%dY0D03*\nM02*\n' % (10000 * k)), order=k))
    return out


def run_theme(case, ctx):
    import io
    from gerber.render.cairo_backend import GerberCairoContext
    from gerber.render.render import RenderSettings
    from gerber.render.theme import THEMES as ALL
    from gerber.render.theme import Theme
    _, name, boards = case
    own = [(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0)]
    theme = ALL[name] if name != 'own' else Theme('own', internal=[RenderSettings(c) for c in own])
    pictures = {}
    for n in boards:
        layers = board_of(n)
        out = io.BytesIO()
        GerberCairoContext().render_layers(layers, out, theme=theme, max_width=160, max_height=30)
        w, h, px = R.read_png(out.getvalue())
        ctx.trace()
        bg = tuple(int(round(255 * v)) for v in theme.background.color)
        got = [px[h * 2 // 3][10 * (k + 1)] for k in range(n)]
        if any(all(abs(a - b) <= 3 for a, b in zip(c, bg)) for c in got) and name in ('own', 'default'):
            raise Violation('an internal layer of %d was not rendered' % n, None, got)
        if name == 'own':
            want = [tuple(int(255 * v) for v in c) for c in own]
            if got[:3] != want[:n] or any(c not in want for c in got):
                raise Violation('colours of %d internal layers' % n, want, got)
        if pictures.setdefault(n, px) != px:
            raise Violation('picture of a board with %d internal layers after boards %s' % (n, boards))
    for n in boards:
        if (name, n) not in _alone:
            _alone[name, n] = pictures[n]
        if _alone[name, n] != pictures[n]:
            raise Violation('picture of a board with %d internal layers after boards %s' % (n, boards))
    return digest(repr(sorted(pictures)))
