"""P18: a board holds every layer of its directory, in stacking order, and its views select the right ones."""
from itertools import combinations, permutations, product
import os
import shutil

from mc.core import Violation

PID = 'P18'
LEVEL = 'model_checking'
RULE = ('(a) every multiset of layer classes up to a fixed size in every order: sorting, the views (top, bottom, copper, '
        'drills, outline, counts, bounds) of the board; (b) every set of files of a catalogue (Gerber, drill, netlist, '
        'foreign, binary, hidden) up to a fixed size in every listing order, read as a directory with several '
        'directory and board names; (c) every order of internal layers with all numbers; '
        '(d) every pair of layer numbers in a range, stacks of n internal layers and directories of n files; (e) every set of files with several extensions: the board name; outcome = the views')
BOUNDS = {'quick': '(a) 13 classes, sets of <= 4 (each order of <= 3), one class doubled; (b) sets of <= 3 of 15 files, '
                   '2 directories; (c) permutations of <= 4 of 6; (d) 0..130, n <= 64; (e) sets of <= 3 of 16',
          'thorough': '(a) sets of <= 6 (each order of <= 4); (b) sets of <= 4, 3 directories; (c) permutations of <= 5 of 7; (d) 0..300, n <= 128'}
ASSUMPTIONS = ('file names of internal layers hold one number, their layer number', 'several layers of one class keep '
               'their order')
ORDER = ['outline', 'toppaste', 'topsilk', 'topmask', 'top', 'internal', 'bottom', 'bottommask', 'bottomsilk',
         'bottompaste']
AFTER = ['drill', 'drawing']
OTHER = ['ipc_netlist', 'unknown']
CLASSES = ORDER + AFTER + OTHER
GERBER = '%%FSLAX24Y24*%%\n%%MOIN*%%\n%%ADD10C,0.5*%%\nD10*\nX%d0000Y0D03*\nX0Y20000D03*\nM02*\n'
DRILL = 'M48\nINCH,TZ\nT1C0.03\n%%\nT1\nX0%d0000Y020000\nM30\n'
NETLIST = 'P  JOB x\nP  UNITS CUST 0\n317GND              VIA         D  24PA00X  14900Y   1450X 396Y 396\n999\n'
FILES = {'board.gtl': ('top', GERBER % 1), 'board.gbl': ('bottom', GERBER % 2), 'board.g2': ('internal', GERBER % 3),
         'board.g1': ('internal', GERBER % 4), 'board.gko': ('outline', GERBER % 5), 'board.gts': ('topmask', GERBER % 6),
         'board.gto': ('topsilk', GERBER % 7), 'board.drl': ('drill', DRILL % 1), 'board.ipc': ('ipc_netlist', NETLIST),
         'board.gbr': ('unknown', GERBER % 8), 'other.gbs': ('bottommask', GERBER % 9),
         'README': (None, 'not a cam file\n'), '.board.gtp': (None, GERBER % 1), 'Thumbs.db': (None, GERBER % 1),
         'logo.png': (None, b'\x89PNG\r\n\x1a\n\x00\xff\xfe\xfa%FSLAX24Y24*%'), 'sub': (None, None)}

# file -> the name of the board in it and its class: a hint of the class before the extension is no part of the name
NAMED = {'b.top.gbr': ('b', 'top'), 'b.bottom.gbr': ('b', 'bottom'), 'b.v2.GBL.gbr': ('b.v2', 'bottom'),
         'b.v2.gtl': ('b.v2', 'top'), 'b.gko': ('b', 'outline'), 'b.drill.xln': ('b', 'drill'), 'b.top.drl': ('b.top', 'drill'),
         'b.pth-drill.txt': ('b', 'drill'), 'b.top.gtl': ('b', 'top'), 'b.bot.gtl': ('b.bot', 'top'), 'b.ipc': ('b', 'ipc_netlist'),
         'b.silk.gbr': ('b', 'topsilk'), 'b.v2.drl': ('b.v2', 'drill'), 'b.drill.gbr': ('b.drill', 'unknown'),
         'b-top.gbr': ('b-top', 'top'), 'c.top.gbr': ('c', 'top')}


def cases(tier):
    quick = tier == 'quick'
    for n in range(0, 5 if quick else 7):
        for combo in combinations(range(len(CLASSES)), n):
            for order in (permutations(combo) if n <= (3 if quick else 4) else (combo, combo[::-1])):
                yield ['sort', list(order)]
            for d in combo if n < 4 else combo[:1]:
                yield ['sort', list(combo) + [d]]
    nums = (1, 2, 3, 10, 20, 4) if quick else (1, 2, 3, 10, 20, 4, 100)
    for n in range(1, 5 if quick else 6):
        for perm in permutations(nums, n):
            for place in range(3):
                yield ['internal', list(perm), place]
    for a in range(131 if quick else 301):
        yield ['pairs', a, 131 if quick else 301]
    for n in range(2, 65 if quick else 129):
        for k in range(4):
            yield ['stack', n, k]
    for n in (1, 5, 9, 10, 11, 16, 20, 32, 40, 64):
        for k in (0, 1):
            yield ['big', n, k]
    for n in range(1, 4 if quick else 5):
        for combo in combinations(sorted(NAMED), n):
            yield ['named', list(combo)]
    for a, b in product(nums + (0, -1), repeat=2):
        yield ['compare', a, b]
    for n in range(0, 4 if quick else 5):
        for combo in combinations(sorted(FILES), n):
            for d in (0, 1) if quick else (0, 1, 2):
                yield ['dir', list(combo), d, 0]
            if n < 3:
                yield ['dir', list(combo), 0, 1]


def reference_sort(layers, cls, order, from_top):
    out = []
    for c in ORDER:
        group = [l for l in layers if cls(l) == c]
        if c == 'internal':
            group = sorted(group, key=order)
        out += group
    if not from_top:
        out = out[::-1]
    for c in AFTER:
        out += [l for l in layers if cls(l) == c]
    return out + [l for l in layers if cls(l) not in ORDER + AFTER]


def views(sorted_layers, cls):
    top = [l for l in sorted_layers[::-1] if cls(l) in ('top', 'topmask', 'topsilk')]
    bottom = [l for l in sorted_layers if cls(l) in ('bottom', 'bottommask', 'bottomsilk')]
    drills = [l for l in sorted_layers if cls(l) == 'drill']
    # holes over the copper and under the mask
    under = lambda ls, c: [l for l in ls if cls(l) == c] + drills + [l for l in ls if cls(l) != c]
    return dict(top=under(top, 'top'), bottom=under(bottom, 'bottom'), drill=drills,
                copper=[l for l in sorted_layers[::-1] if cls(l) in ('top', 'bottom', 'internal')],
                outline=[l for l in sorted_layers if cls(l) == 'outline'][:1],
                count=len([l for l in sorted_layers if cls(l) in ('top', 'bottom', 'internal')]),
                len=len(sorted_layers))


def observed(pcb):
    o = pcb.outline_layer
    return dict(top=pcb.top_layers, bottom=pcb.bottom_layers, drill=pcb.drill_layers, copper=pcb.copper_layers,
                outline=[o] if o is not None else [], count=pcb.layer_count, len=len(pcb))


def ids(x):
    return [id(l) for l in x] if isinstance(x, list) else x


def check_views(pcb, cls, label):
    want, got = views(list(pcb.layers), cls), observed(pcb)
    for k in sorted(want):
        if ids(want[k]) != ids(got[k]):
            raise Violation('%s of %s' % (k, label), want[k], got[k])
    src = [l for l in pcb.layers if l.layer_class == 'outline'] or [l for l in pcb.layers if l.layer_class == 'top']
    if (src[0].bounds if src else None) != pcb.board_bounds:
        raise Violation('board bounds of %s' % label, src and src[0].bounds, pcb.board_bounds)


def run(case, ctx):
    from gerber import layers as L
    from gerber.pcb import PCB
    if case[0] == 'sort':
        ls = []
        for n, k in enumerate(case[1]):
            c = CLASSES[k]
            ls.append(L.InternalLayer(order=n) if c == 'internal' else L.DrillLayer() if c == 'drill'
                      else L.PCBLayer(layer_class=c))
        cls = lambda l: l.layer_class
        for from_top in (True, False):
            before = list(ls)
            got = L.sort_layers(ls, from_top)
            want = reference_sort(ls, cls, lambda l: l.order, from_top)
            ctx.transition(tuple(case[1]), from_top, tuple(map(cls, want)))
            if ids(want) != ids(got):
                raise Violation('order of %s' % list(map(cls, ls)), list(map(cls, want)), list(map(cls, got)))
            if ids(before) != ids(ls):
                raise Violation('sorting changed its argument')
        if ids(L.sort_layers(ls)) != ids(L.sort_layers(L.sort_layers(ls))):
            raise Violation('sorting twice')
        pcb = PCB(ls, 'name')
        check_views(pcb, cls, list(map(cls, ls)))
        one = [l for l in pcb.layers if cls(l) == 'drill']
        for l in one:       # holes which do not reach a side are not shown on it
            l.layers = ['top']
            if any(d is l for d in pcb.bottom_layers) or not any(d is l for d in pcb.top_layers):
                raise Violation('view of a drill layer which only reaches the top')
            l.layers = ['top', 'bottom']
        ctx.trace()
        return repr([cls(l) for l in pcb.layers])
    if case[0] == 'internal':
        import gerber
        _, perm, place = case
        d = ['/nonexistent/x', '/nonexistent/rev9/user3', 'gerbers-7'][place]
        forms = ['board.g%d' if max(perm) < 7 else 'group%d.zzz', 'board-In%d.Cu.gbr', 'internal-%d.pho'][place]
        if place == 1 and max(perm) > 4:
            forms = 'gnd-%d.gbr'
        if forms == 'group%d.zzz':
            forms = 'internal.%d.gbr'
        ls = [L.load_layer_data(GERBER % 1, os.path.join(d, forms % n)) for n in perm]
        if any(l.layer_class != 'internal' for l in ls):
            raise Violation('class of %s' % forms, 'internal', [l.layer_class for l in ls])
        for from_top in (True, False):
            got = [l.filename for l in L.sort_layers(ls, from_top)]
            want = [os.path.join(d, forms % n) for n in sorted(perm, reverse=not from_top)]
            if want != got:
                raise Violation('order of internal layers', want, got)
        ctx.transition(tuple(perm), 'sort', tuple(sorted(perm)))
        ctx.trace()
        return repr(got)
    if case[0] == 'pairs':
        _, a, top = case
        for b in range(top):
            x, y = L.InternalLayer('x', order=a), L.InternalLayer('y', order=b)
            got = [l.order for l in L.sort_layers([x, y])], [l.order for l in L.sort_layers([x, y], False)]
            want = sorted([a, b]), sorted([a, b], reverse=True)
            if got != want:
                raise Violation('order of internal layers %d and %d' % (a, b), want, got)
            name = 'board-internal-%d.gbr' % b if b % 2 else 'rev.g%d' % b
            if b % 7 == a % 7 and (b % 2 or 0 < b < 7):
                l = L.load_layer_data(GERBER % 1, name)
                if (l.layer_class, l.order) != ('internal', b):
                    raise Violation('layer number of %s' % name, ('internal', b), (l.layer_class, getattr(l, 'order', None)))
        ctx.trace()
        return repr(a)
    if case[0] == 'stack':
        _, n, k = case
        order = [list(range(n)), list(range(n))[::-1], [(7 * m) % n for m in range(n)] if n % 7 else list(range(n)),
                 [m // 2 if m % 2 else n - 1 - m // 2 for m in range(n)]][k]
        ls = [L.InternalLayer(order=m) for m in order]
        ls.insert(n // 2, L.PCBLayer(layer_class='bottom'))
        ls.insert(n // 3, L.PCBLayer(layer_class='top'))
        ls.insert(n // 4, L.DrillLayer())
        cls = lambda l: l.layer_class
        for from_top in (True, False):
            want, got = reference_sort(ls, cls, lambda l: l.order, from_top), L.sort_layers(ls, from_top)
            if ids(want) != ids(got):
                raise Violation('order of %d internal layers' % n, [(cls(l), getattr(l, 'order', None)) for l in want],
                                [(cls(l), getattr(l, 'order', None)) for l in got])
        pcb = PCB(ls, 'name')
        check_views(pcb, cls, '%d internal layers' % n)
        ctx.trace()
        return repr([getattr(l, 'order', None) for l in pcb.layers])
    if case[0] == 'big':
        _, n, k = case
        base = os.path.join(ctx.scratch, 'big')
        os.makedirs(base)
        try:
            names = {}
            for m in range(n):
                f, c = [('b-internal-%d.gbr' % (n - m), 'internal'), ('drill%d.drl' % m, 'drill'), ('part%d.zzz' % m, 'unknown'),
                        ('net%d.ipc' % m, 'ipc_netlist')][m % 4 if k else 0]
                names[f] = c
                with open(os.path.join(base, f), 'w') as h:
                    h.write({'drill': DRILL % 1, 'ipc_netlist': NETLIST}.get(c, GERBER % (m % 10)))
            pcb = PCB.from_directory(base)
            got = [(os.path.basename(l.filename), l.layer_class) for l in pcb.layers]
            if sorted(got) != sorted(names.items()):
                raise Violation('layers of a directory of %d files' % n, sorted(names.items()), sorted(got))
            inner = [f for f, c in got if c == 'internal']
            want = sorted(inner, key=lambda f: int(f[11:-4]))
            if inner != want:
                raise Violation('order of the internal layers', want, inner)
            check_views(pcb, lambda l: l.layer_class, 'directory of %d files' % n)
            ctx.trace()
            return repr(got)
        finally:
            shutil.rmtree(base)
    if case[0] == 'named':
        base = os.path.join(ctx.scratch, 'named', 'folder.x')
        os.makedirs(base)
        try:
            for f in case[1]:
                with open(os.path.join(base, f), 'w') as h:
                    h.write(NETLIST if f.endswith('.ipc') else DRILL % 1 if NAMED[f][1] == 'drill' else GERBER % 1)
            pcb = PCB.from_directory(base)
            got = sorted((os.path.basename(l.filename), l.layer_class) for l in pcb.layers)
            if got != sorted((f, NAMED[f][1]) for f in case[1]):
                raise Violation('layers of %s' % case[1], [NAMED[f] for f in case[1]], got)
            stems = set(NAMED[f][0] for f in case[1])
            want = stems.pop() if len(stems) == 1 else 'folder.x'
            if pcb.name != want:
                raise Violation('board name for %s' % case[1], want, pcb.name)
            ctx.trace()
            return repr((got, want))
        finally:
            shutil.rmtree(os.path.join(ctx.scratch, 'named'))
    if case[0] == 'compare':
        import operator
        _, a, b = case
        x, y = L.InternalLayer('x', order=a), L.InternalLayer('y', order=b)
        got = [getattr(operator, o)(x, y) for o in ('lt', 'le', 'eq', 'ne', 'ge', 'gt')]
        want = [getattr(operator, o)(a, b) for o in ('lt', 'le', 'eq', 'ne', 'ge', 'gt')]
        if want != got:
            raise Violation('comparison of internal layers %d and %d' % (a, b), want, got)
        return repr(want)
    _, names, dn, named = case
    base = os.path.join(ctx.scratch, 'b')
    d = os.path.join(base, ['plain', 'rev12.v3', '.x/my board 7'][dn])
    os.makedirs(d)
    try:
        for f in names:
            content = FILES[f][1]
            p = os.path.join(d, f)
            if content is None:
                os.makedirs(p)
            else:
                with open(p, 'wb') as h:
                    h.write(content if isinstance(content, bytes) else content.encode())
        listing = os.listdir
        results = set()
        for perm in permutations(names):
            os.listdir = lambda x, perm=perm: list(perm)
            try:
                pcb = PCB.from_directory(d, 'given', verbose=True) if named else PCB.from_directory(d)
            finally:
                os.listdir = listing
            cls = lambda f: FILES[f][0]
            expect = reference_sort([f for f in perm if cls(f)], cls, lambda f: int(f[-1]), True)
            got = [(os.path.basename(l.filename), l.layer_class) for l in pcb.layers]
            if got != [(f, cls(f)) for f in expect]:
                raise Violation('layers of directory with %s' % list(perm), expect, got)
            for l in pcb.layers:
                if not l.primitives or len(l.primitives) != len(l.cam_source.primitives):
                    raise Violation('contents of layer %s' % l.filename)
            check_views(pcb, lambda l: l.layer_class, 'directory with %s' % list(perm))
            stems = set(f.split('.')[0] for f in expect)
            name = 'given' if named else stems.pop() if len(stems) == 1 else os.path.basename(d)
            if pcb.name != name:
                raise Violation('board name for %s' % list(perm), name, pcb.name)
            ctx.transition(('dir', perm), 'read', tuple(expect))
            ctx.trace()
            results.add((tuple(expect), pcb.name))
        return repr(sorted(results))
    finally:
        try:
            PCB.from_directory(os.path.join(d, 'README'))
        except TypeError:
            pass
        else:
            raise Violation('a board is made from something that is not a directory')
        finally:
            shutil.rmtree(base)
