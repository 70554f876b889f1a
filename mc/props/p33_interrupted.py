"""P33: of a file cut off at any point, the commands before the cut count and nothing else; writes that fail say so."""
from itertools import product
import os

from mc import emodel as E
from mc import espace as S
from mc import gdocs as D
from mc import gmodel as G
from mc.core import Violation
from mc.props import p11_drill_machine as P11
from mc.props import p32_gerber_commands as P32
from mc.props.p04_roundtrip import aps_piece

PID = 'P33'
LEVEL = 'model_checking'
RULE = ('crash points: (a) every byte at which the text of a Gerber file may end, for every document of a catalogue and layout; '
        'the objects and the statements must be those of the model after the commands completed before; (b) every line, and every byte of a '
        'line, at which a drill file may end; (c) every byte at which a write of either may fail (limit of the size '
        'of files), over nothing, a shorter or a longer old file; model state = number of commands done')
BOUNDS = {'quick': '(a) 15 documents x 6 layouts, pairs of 10 pieces; (b) 19 pieces x 13 headers x 4 layouts, byte cuts of one layout; (c) 6 '
                   'documents, every byte',
          'thorough': '(a) the same with 5 apertures and triples of pieces; (b) pairs of pieces; (c) 12 documents'}
ASSUMPTIONS = ('settings of drill files are declared or given by the caller', 'within the line of a drill file that is cut '
               'off the command may be read as a shorter one or refused')
APS = [['c'], ['ch'], ['r'], ['oh'], ['phh'], ['BOX', 'c'], ['DONUT', 'TRI'], ['THERM', 'POLY'], ['VEC', 'chh'], ['MOIRE', 'r'],
       ['LOWLEFT', 'CROSS'], ['EMPTY', 'FIDUCIAL']]
META = ['comment', 'in', 'of', 'sf', 'ln', 'ippos', 'as', 'ir', 'mi', 'attr', 'g90', 'ofb', 'sfa', 'quad', 'unknown']
PIECES = ['line', 'arcm', 'circ', 'arcs', 'flash', 'region', 'regarc', 'clear', 'clearline', 'redef']
STYLES = {'plain': G.Style(), 'short': G.Style(short=True), 'crlf': G.Style(eol='\r\n'), 'joined': G.Style(joined=True),
          'params': G.Style(params_joined=True), 'pad': G.Style(pad=True), 'one': G.Style(eol='')}
DRILL_STYLES = ('plain', 'crlf', 'blank', 'comments')
HEADS = ('inLZ24', 'inTZff', 'inLZ26', 'mmTZ37', 'inTZ24', 'mmLZ33', 'mmTZ33', 'mmLZ42', 'inTZfm', 'mmTZfm', 'mmLZx', 'M72', 'mm')
WRITES = [['g', ['APS', 'line'], ['BOX', 'c']], ['g', ['region', 'META'], ['r']], ['e', ['holes2', 'holes', 'g85', 'rout'], 'inTZ24'],
          ['e', ['rout', 'repeat'], 'mmLZ33'], ['g', ['regarc', 'APS'], ['DONUT', 'TRI']], ['e', ['inc', 'next'], 'inLZ24'],
          ['g', ['arcs', 'clear', 'APS'], ['VEC', 'chh']], ['e', ['zerosize', 'comp'], 'mmTZ37'], ['g', [], []], ['g', ['APS'], ['BIG']],
          ['e', [], 'inTZ24'], ['e', ['neutral', 'holes2'], 'mmLZx']]


def cases(tier):
    quick = tier == 'quick'
    for st in sorted(STYLES):
        for aps in APS if st != 'params' else APS[:5]:
            yield ['gerber', st, ['APS'], aps]
        yield ['gerber', st, ['META', 'flash'], ['c']]
        for n in (1, 2):
            for combo in product(PIECES, repeat=n):
                for aps in [['c']] if quick else [['c'], ['r'], ['o']]:
                    if n == 1 or st in ('plain', 'joined') or not quick:
                        yield ['gerber', st, list(combo), aps]
    if not quick:
        for combo in product(PIECES, repeat=3):
            yield ['gerber', 'plain', list(combo), ['c']]
    for st in DRILL_STYLES if quick else sorted(S.STYLES):
        for h in HEADS:
            for n in (1,) if quick else (1, 2):
                for combo in product(sorted(S.PIECES), repeat=n):
                    if n == 1 or st == 'plain' and h in HEADS[:4]:
                        yield ['drill', st, h, list(combo)]
    for w in WRITES[:6] if quick else WRITES:
        for old in ('none', 'short', 'long'):
            yield ['write', w, old]


def gerber_program(pieces, aps):
    cmds = D.head('IN', (2, 4), 'L', aps)
    if aps:
        cmds += [['D', 10], ['c', None, 0, 0, None, None, 'D02']]
    for p in pieces:
        cmds += aps_piece(aps) if p == 'APS' else [D.NON_DRAWING[e] for e in META] if p == 'META' else D.PIECES[p]
    return cmds


def marks(text):
    """(first, last) number of bytes after which each command of a Gerber file is complete"""
    out, inside, begin = [], False, 0
    for n, ch in enumerate(text):
        if ch == '%':
            if inside:
                if text[begin:begin + 2] == 'AM':
                    out = out[:outer] + [(n + 1, n + 1)]
                else:
                    out = out[:outer] + [(a, n + 1) for a, _ in out[outer:]]
            inside, begin, outer = not inside, n + 1, len(out)
        elif ch == '*':
            out.append((n + 1, n + 1))
    return out


def run(case, ctx):
    return {'gerber': run_gerber, 'drill': run_drill, 'write': run_write}[case[0]](case, ctx)


def run_gerber(case, ctx):
    from gerber import rs274x
    _, st, pieces, aps = case
    cmds = gerber_program(pieces, aps)
    text = D.text_of(cmds, STYLES[st])
    cmds = cmds + [['M02']]
    ends = marks(text)
    if len(ends) != len(cmds):
        raise RuntimeError('marks of %r' % text)
    models = [(D.transform(D.build(cmds[:k]).out, 1.0, 0.0, 0.0), [P32.after(s, 1.0, 0.0, 0.0, 'inch') for s in P32.expected(cmds[:k])])
              for k in range(len(cmds) + 1)]
    last = None
    for n in range(len(text) + 1):
        low, high = sum(b <= n for _, b in ends), sum(a <= n for a, _ in ends)
        f = rs274x.loads(text[:n])
        bad = []
        for k in range(low, high + 1):
            objs, stmts = models[k]
            b = D.compare(objs, f)
            got = [P32.observed(s) for s in f.statements]
            if not b and not G.same(stmts, got):
                b = 'statements: ' + G.first_difference(stmts, got)
            if not b:
                break
            bad.append(b)
        else:
            raise Violation('after %d bytes, %s\nprogram:\n%s\n-----cut here-----\n%s' % (n, bad[0], text[:n], text[n:]))
        ctx.transition(last, 'byte', k)
        last = k
    ctx.trace()
    return repr((pieces, aps, len(ends)))


def run_drill(case, ctx):
    from gerber import excellon
    from gerber.cam import FileSettings
    _, st, h, pieces = case
    cmds = S.document(h, pieces)
    style = S.STYLES[st]
    text = E.render(cmds, style)
    # the line break after a command is no part of it
    ends = [0] + [len(E.render(cmds[:k], style).rstrip()) for k in range(1, len(cmds) + 1)]
    settings = None if E.declares_all(cmds) else E.settings_of(cmds, FileSettings)
    models = [E.model_hits(E.interpret(cmds[:k])) for k in range(len(cmds) + 1)]
    last = None
    for n in range(len(text) + 1):
        at_line = n == len(text) or text[:n].endswith('\n') or text[n] in '\r\n'
        if not at_line and st != 'plain':
            continue
        k = max(k for k, e in enumerate(ends) if e <= n)
        rest = text[n:ends[k + 1]] if k + 1 < len(ends) else 'x'
        may = [k, k + 1] if all(not l.strip() or l.strip()[0] == ';' for l in rest.splitlines()) else [k]
        try:
            f = excellon.loads(text[:n], settings=settings)
        except Exception:
            if at_line:
                raise
            continue
        got = E.file_hits(f)
        if at_line:
            if not any(G.same(models[m], got) for m in may):
                raise Violation('after %d bytes, %s\nprogram:\n%s\n-----cut here-----\n%s'
                                % (n, G.first_difference(models[k], got), text[:n], text[n:]), G.show(models[k]), G.show(got))
            ctx.transition(last, 'line', k)
            last = k
        elif not G.same(models[k], got[:len(models[k])]):
            raise Violation('after %d bytes, complete commands: %s\nprogram:\n%s\n-----cut here-----\n%s'
                            % (n, G.first_difference(models[k], got), text[:n], text[n:]), G.show(models[k]), G.show(got))
    ctx.trace()
    return repr((h, pieces, len(ends)))


def limited(n, action):
    """action with files limited to n bytes; the error it ends with"""
    import resource
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
    try:
        action()
    except (IOError, OSError) as e:
        return e
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
    return None


def run_write(case, ctx):
    import gc
    import signal
    import gerber
    from gerber import excellon, rs274x
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    (kind, pieces, aps), old = case[1:]
    if kind == 'g':
        cmds = gerber_program(pieces, aps) + [['M02']]
        text = D.text_of(cmds[:-1])
        load = rs274x.loads

        def look(f):
            return [P32.observed(s) for s in f.statements], G.canon_file(f)
    else:
        cmds = S.document(aps, pieces)
        text = E.render(cmds)
        load = excellon.loads

        def look(f):
            return E.file_hits(f), E.tool_list(f)
    path = os.path.join(ctx.scratch, 'p33.cam')
    full = None
    f = load(text)
    before = look(f)

    def content():
        if not os.path.exists(path):
            return None
        with open(path, newline='') as fh:
            return fh.read()
    f.write(path)
    full = content()
    was = {'none': None, 'short': 'M48\n', 'long': text * 3 + '\n'}[old]
    for n in range(len(full)):
        if os.path.exists(path):
            os.remove(path)
        if was is not None:
            with open(path, 'w', newline='') as fh:
                fh.write(was)
        e = limited(n, lambda: f.write(path))
        if n % 200 == 0:
            gc.collect()
        label = 'writing %d of %d bytes over %s old file\nprogram:\n%s' % (n, len(full), old, text)
        if e is None:
            raise Violation('no error ' + label)
        left = content()
        if left != was and left is not None and not full.startswith(left):
            raise Violation('what is left after ' + label, full[:n], left)
        if not G.same(before, look(f)):
            raise Violation('the file in memory after ' + label, before, look(f))
        f.write(path)
        if content() != full:
            raise Violation('the next write after ' + label, full, content())
        ctx.transition(('write', n), 'fails', (left is not None and len(left)))
    os.remove(path)
    # another limit than that of bytes: no directory, a directory
    for bad in (os.path.join(ctx.scratch, 'nowhere', 'x'), ctx.scratch):
        try:
            f.write(bad)
        except (IOError, OSError):
            pass
        else:
            raise Violation('no error writing to %s' % bad)
        if not G.same(before, look(f)):
            raise Violation('the file in memory after writing to nowhere', before, look(f))
    ctx.trace()
    return full
