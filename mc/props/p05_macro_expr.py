"""P05: aperture macro arithmetic and variables."""
from fractions import Fraction
from itertools import product

from mc.core import Violation

PID = 'P05'
LEVEL = 'exploration'
RULE = ('every expression tree with at most K binary operators over the operands {$1,$2,number,0,undefined} with a '
        'sign in every legal place and minimal or full parentheses; and every sequence of macro blocks '
        '(assignments, re-assignments, comments, primitives) up to length N instantiated by two apertures with '
        'different parameter lists; every way to write a number (up to 9 digits before and 10 after the point); '
        'macros which use n parameters, or n parameters and n variables; outcome = evaluated modifiers; an expression with a zero divisor is trivial')
BOUNDS = {'quick': 'K=2 (4 operands per slot, signs everywhere), N=3, n <= 40',
          'thorough': 'K=3, N=4, n < 200'}
ASSUMPTIONS = ('no division by zero', 'agreement to 1e-9 relative')

ENVS = [('2', '0.5'), ('-3', '4')]
OPS = '+-x/'


def trees(k, leaves):
    if k == 0:
        for l in leaves:
            yield l
        return
    for left in range(k):
        for a in trees(left, leaves):
            for b in trees(k - 1 - left, leaves):
                for op in OPS:
                    yield [op, a, b]


def signs(t, budget):
    """every way to put at most `budget` unary minus signs on sub-terms"""
    if isinstance(t, str):
        yield t
        if budget:
            yield ['neg', t]
        return
    op, a, b = t
    for n in range(budget + 1):
        for sa in signs(a, n):
            used = count_neg(sa)
            for sb in signs(b, budget - used):
                if n == used:
                    yield [op, sa, sb]
    if budget:
        yield ['neg', [op, a, b]]


def count_neg(t):
    if isinstance(t, str):
        return 0
    if t[0] == 'neg':
        return 1 + count_neg(t[1])
    return count_neg(t[1]) + count_neg(t[2])


PREC = {'+': 1, '-': 1, 'x': 2, '/': 2}


def text(t, style, ctxprec=0, right=False):
    """style 0: minimal parentheses, 1: parentheses around every operation, 2: minimal, X for x"""
    if isinstance(t, str):
        return t
    if t[0] == 'neg':
        s = '-' + (text(t[1], style) if isinstance(t[1], str) else '(' + text(t[1], style) + ')')
        # a signed term in the middle of an expression is written in parentheses
        return '(' + s + ')' if ctxprec else s
    op, a, b = t
    p = PREC[op]
    # a leading sign needs no parentheses
    la = text(a, style, 0 if (not isinstance(a, str) and a[0] == 'neg' and isinstance(a[1], str)) else p)
    s = la + ('X' if style == 2 and op == 'x' else op) + text(b, style, p, True)
    if ctxprec > p or (right and ctxprec >= p) or (style == 1 and ctxprec):
        return '(' + s + ')'
    return s


def value(t, env):
    if isinstance(t, str):
        if t[0] == '$':
            return env.get(int(t[1:]), Fraction(0))
        return Fraction(t)
    if t[0] == 'neg':
        return -value(t[1], env)
    a, b = value(t[1], env), value(t[2], env)
    return a + b if t[0] == '+' else a - b if t[0] == '-' else a * b if t[0] == 'x' else a / b


BLOCKS = [
    ('=', 3, ['+', '$1', '$2']),
    ('=', 3, ['x', '$3', '2']),
    ('=', 4, ['-', '$3', '$1']),
    ('=', 1, ['x', '$1', '3']),
    ('=', 2, '0.25'),
    ('0', ' $1 = 99 width'),
    ('0', ' note, 1,1,9,0,0'),
    ('1', '$3', '$1', '$4'),
    ('1', '$1', '$2', '$3'),
]


def cases(tier):
    quick = tier == 'quick'
    leaves = ['$1', '$2', '3', '0.5']
    for l in ['$1', '$2', '$3', '0', '1', '007', '0.25', '.5', '2.', '10', '1000000', '0.000001']:
        for e in (l, ['neg', l]):
            yield ['expr', e, 0]
    whole = ['', '0', '7', '12', '0305', '100000', '123456', '98765432', '000000001']
    part = [None, '', '0', '5', '05', '125', '654321', '0000001', '1234567', '00000012', '123456789', '5000000000', '000000000']
    for i, d in product(whole, part):
        if i or d:
            l = i if d is None else i + '.' + d
            for e in (l, ['neg', l], ['+', l, '$1'], ['x', '2', ['neg', l]]):
                yield ['expr', e, 0]
    for k in (1, 2) if quick else (1, 2, 3):
        for t in trees(k, leaves if k < 3 else ['$1', '$2', '3']):
            for s in signs(t, 2 if k < 3 else 1):
                for style in (0, 1, 2) if k < 3 else (0,):
                    yield ['expr', s, style]
    for t in trees(1, ['0', '$1', '$9', '1.5']):
        for style in (0, 1):
            yield ['expr', t, style]
    for n in range(1, 41 if quick else 200):
        for store in (0, 1):
            yield ['wide', n, store]
    n = 3 if quick else 4
    for k in range(1, n + 1):
        for blocks in product(range(len(BLOCKS)), repeat=k):
            yield ['blocks', list(blocks)]


def eval_blocks(blocks, params):
    env = dict((i + 1, Fraction(p)) for i, p in enumerate(params))
    out = []
    for b in blocks:
        if b[0] == '=':
            env[b[1]] = value(b[2], env)
        elif b[0] == '1':
            out.append(tuple(value(x, env) for x in b[1:]))
    return out


def macro_text(blocks):
    out = []
    for b in blocks:
        if b[0] == '=':
            out.append('$%d=%s' % (b[1], text(b[2], 0)))
        elif b[0] == '0':
            out.append('0' + b[1])
        else:
            out.append('1,1,' + ','.join(text(x, 0) for x in b[1:]))
    return '*'.join(out) + '*'


def instantiate(macro, params, extra=()):
    """text of a file that flashes the macro at the origin once per parameter list"""
    t = '%FSLAX24Y24*%\n%MOIN*%\n%AMMAC1*' + macro + '%\n'
    for i, p in enumerate(params):
        t += '%%ADD%dMAC1%s*%%\n' % (10 + i, ',' + 'X'.join(p) if p else '')
    for i in range(len(params)):
        t += 'D%d*\nX0Y0D03*\n' % (10 + i)
    # and once more in the opposite order: instances do not influence each other
    for i in reversed(range(len(params))):
        t += 'D%d*\nX0Y0D03*\n' % (10 + i)
    return t + 'M02*\n'


def circles(group):
    return [(p.diameter, p.position[0], p.position[1]) for p in group.primitives]


def close(a, b):
    a, b = float(a), float(b)
    return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def run(case, ctx):
    import gerber
    if case[0] == 'expr':
        _, t, style = case
        params = [list(e) for e in ENVS]
        envs = [dict((i + 1, Fraction(p)) for i, p in enumerate(e)) for e in ENVS]
        try:
            vals = [value(t, e) for e in envs]
        except ZeroDivisionError:
            return None
        s = text(t, style)
        ctx.count('expressions')
        # last, middle and first modifier of a primitive, and the right hand side of an assignment
        macro = '1,1,1,%s,%s*$3=%s*1,1,$3,$3,%s*' % (s, s, s, s)
        exp = [[(1, v, v), (v, v, v)] for v in vals]
        params_used = params
    elif case[0] == 'wide':
        # n parameters; every one of them is used, and (store) put into a variable of its own number + n first
        _, n, store = case
        params_used = [['%g' % ((k + 1) * s) for k in range(n)] for s in (0.25, 1, 3)]
        params_used[1] = params_used[1][:n // 2]
        blocks = [('=', k + n, '$%d' % k) for k in range(1, n + 1)] if store else []
        blocks += [('1', '$%d' % (k + n * store), '$%d' % (n + 1 - k + n * store), ['x', '$%d' % (k + n * store), '2'])
                   for k in range(1, n + 1)]
        macro = s = macro_text(blocks)
        exp = [eval_blocks(blocks, p) for p in params_used]
    else:
        blocks = [BLOCKS[i] for i in case[1]]
        macro = macro_text(blocks)
        params_used = [['2', '5'], ['7'], []]
        exp = [eval_blocks(blocks, p) for p in params_used]
        s = macro
        ctx.count('block_sequences')
    src = instantiate(macro, params_used)
    f = gerber.loads(src)
    got = [circles(p) for p in f.primitives]
    want = exp + exp[::-1]
    ok = len(got) == len(want) and all(
        len(g) == len(w) and all(close(x, y) for a, b in zip(g, w) for x, y in zip(a, b))
        for g, w in zip(got, want))
    if not ok:
        raise Violation('macro %r evaluates wrongly (parameters %r)' % (s, params_used),
                        [[tuple(float(x) for x in w) for w in e] for e in want], got)
    return repr([[tuple(float(x) for x in w) for w in e] for e in exp])
