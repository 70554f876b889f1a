"""P01: fixed-format coordinate numbers mean the same thing on reading and writing.

Reference: exact integer arithmetic.  A number in format (a, b) is an integer n
counting 10**-b units, spelled with a+b digits of which leading or trailing
zeros may be left out.
"""
from fractions import Fraction
from itertools import combinations, product

from mc.core import Violation

PID = 'P01'
LEVEL = 'exploration'
RULE = ('every format with 0..6 integer and 0..7 decimal digits x every zero-suppression mode x sign x every '
        'digit string with at most K nonzero digits drawn from D (all digit strings for short formats) x every '
        'legal spelling (0..all suppressible zeros dropped, +/-), plus off-grid values for writing; an outcome is '
        'distinct when its (format, mode, written text) differs; zero is trivial')
BOUNDS = {
    'quick': 'K=3, D={1,5,9}; complete for formats of <= 4 digits',
    'thorough': 'K=4, D={1,2,5,9}; complete for formats of <= 5 digits',
}
ASSUMPTIONS = ('in-range values only: the text has no more digits than the format provides',
               'float comparison to 1 part in 1e12')


def digit_strings(n, k, alphabet, full):
    if n <= full:
        for t in product('0123456789', repeat=n):
            yield ''.join(t)
        return
    yield '0' * n
    for kk in range(1, k + 1):
        for pos in combinations(range(n), kk):
            for ds in product(alphabet, repeat=kk):
                s = ['0'] * n
                for p, d in zip(pos, ds):
                    s[p] = d
                yield ''.join(s)
    yield '9' * n
    yield ('1234567890123')[:n]


def cases(tier):
    k, alphabet, full = (3, '159', 4) if tier == 'quick' else (4, '1259', 5)
    for a in range(0, 7):
        for b in range(0, 8):
            if a + b == 0:
                continue
            for s in digit_strings(a + b, k, alphabet, full):
                yield [a, b, s]


def ref_decode(text, a, b, zs):
    """Independent reader: text -> integer count of 10**-b units."""
    sign = 1
    if text[:1] in '+-' and text:
        sign = -1 if text[0] == '-' else 1
        text = text[1:]
    if not text.isdigit():
        raise Violation('not a digit string: %r' % text)
    n = a + b
    if text == '0':
        return 0
    if len(text) > n:
        raise Violation('%r has more digits than format %d:%d allows' % (text, a, b))
    if zs == 'leading':
        text = text.rjust(n, '0')
    elif zs == 'trailing':
        text = text.ljust(n, '0')
    elif len(text) != n:
        raise Violation('%r: with no zero suppression all %d digits are required' % (text, n))
    return sign * int(text)


def spellings(s, zs):
    if zs == 'leading':
        z = len(s) - len(s.lstrip('0'))
        out = [s[i:] for i in range(0, z + 1)]
    elif zs == 'trailing':
        z = len(s) - len(s.rstrip('0'))
        out = [s[:len(s) - i] for i in range(0, z + 1)]
    else:
        out = [s]
    return [t for t in out if t]


def close(x, y):
    return abs(x - y) <= 1e-12 * max(1e-9, abs(y))


def run(case, ctx):
    from gerber.utils import parse_gerber_value, write_gerber_value
    a, b, s = case
    n = int(s)
    fmt = (a, b)
    scale = 10 ** b
    top = 10 ** (a + b) - 1
    seen = []
    for sign in (1, -1):
        v = float(Fraction(sign * n, scale))
        for zs in ('leading', 'trailing', 'none'):
            for t in spellings(s, zs):
                for prefix in (('-',) if sign < 0 else ('', '+')):
                    got = parse_gerber_value(prefix + t, fmt, zs)
                    ctx.count('parsed')
                    if not close(got, v):
                        raise Violation('reading %r in format %d:%d, %s zeros suppressed' % (prefix + t, a, b, zs),
                                        v, got)
            text = write_gerber_value(v, fmt, zs)
            ctx.count('written')
            if ref_decode(text, a, b, zs) != sign * n:
                raise Violation('writing %r in format %d:%d, %s zeros suppressed: %r is a different number'
                                % (v, a, b, zs, text), sign * n, ref_decode(text, a, b, zs))
            body = text.lstrip('-')
            if n and ((zs == 'leading' and body[0] == '0') or (zs == 'trailing' and body[-1] == '0')):
                raise Violation('%r keeps zeros that mode %s suppresses' % (text, zs))
            if not close(parse_gerber_value(text, fmt, zs), v):
                raise Violation('write/read of %r in %d:%d %s' % (v, a, b, zs), v,
                                parse_gerber_value(text, fmt, zs))
            seen.append(text)
            # off-grid values round to the nearest representable number (3/8 of a unit either way)
            for num in (-3, 3):
                f = Fraction(8 * sign * n + num, 8 * scale)
                if n == top and num * sign > 0:
                    continue
                text = write_gerber_value(float(f), fmt, zs)
                ctx.count('written')
                if n == 0 and text.strip('0'):
                    raise Violation('writing %r in format %d:%d %s, which rounds to zero' % (float(f), a, b, zs), '0', text)
                if ref_decode(text, a, b, zs) != sign * n:
                    raise Violation('writing %r in format %d:%d %s must round to the nearest unit'
                                    % (float(f), a, b, zs), sign * n, text)
        # explicit decimal point: the format is irrelevant
        whole, frac = s[:a], s[a:]
        for zs in ('leading', 'trailing', 'none'):
            for t in {whole + '.' + frac, whole.lstrip('0') + '.' + frac, whole + '.' + frac.rstrip('0'),
                      (whole.lstrip('0') or '0') + '.' + (frac.rstrip('0') or '0')}:
                if t == '.':
                    continue
                # digits beyond the format count, too
                for t, w in ((t, 0), ('9000' + (t if t[0] != '.' else '0' + t), 9000 * 10 ** len(t.split('.')[0] or '0')),
                             (t.ljust(len(t) + b - len(t.split('.')[1]), '0') + '0037', Fraction(37, 10 ** (max(b, len(t.split('.')[1])) + 4)))):
                    want = float(sign * (Fraction(n, scale) + w))
                    for p in ('-',) if sign < 0 else ('', '+'):
                        got = parse_gerber_value(p + t, fmt, zs)
                        ctx.count('parsed')
                        if not close(got, want):
                            raise Violation('reading explicit decimal %r' % (p + t), want, got)
    return None if n == 0 else '%d%d:%s' % (a, b, ','.join(seen))
