"""N08: bitwise operators follow binary arithmetic on whole numbers."""
from common import tryev, failed, setvars
LIBS = ['objects.number']
CALCS = ['Computing']
OPS = ['&', '|', '^^']


def bits(h, x, k):
    """Binary digits of a whole number below 2^k, most significant first."""
    out = []
    for i in reversed(range(k)):
        b = x >= 2 ** i
        out.append(b)
        if b:
            x = x - 2 ** i
    return out


def h_bin(h):
    """&, | and ^^ combine the binary digits position by position."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    k = h.p('k')
    op = h.choose('op', OPS)
    a, b = h.int('a', 0, 2 ** k - 1), h.int('b', 0, 2 ** k - 1)
    r = tryev(h, c, 'va ' + op + ' vb', {'va': N.Number(a), 'vb': N.Number(b)})
    h.check(not failed(r), 'defined on whole numbers')
    want = h.bitop(op, a, b, k)
    h.check(h.q(r) == want, 'digit by digit')
    h.cover('done')


def h_mixed(h):
    """The value does not depend on the representation of the operands."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    k = h.p('k')
    op = h.choose('op', OPS)
    reps = h.choose('reps', h.p('reps'))
    a, b = h.int('a', 0, 2 ** k - 1), h.int('b', 0, 2 ** k - 1)
    r = tryev(h, c, '(va as ' + reps[0] + ') ' + op + ' (vb as ' + reps[1] + ')', {'va': N.Number(a), 'vb': N.Number(b)})
    h.check(not failed(r), 'defined on whole numbers')
    h.check(h.q(r) == h.bitop(op, a, b, k), 'digit by digit')
    h.cover('done')


def h_shift(h):
    """<< multiplies and >> divides by powers of two."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    op = h.choose('op', ['<<', '>>'])
    a = h.int('a', 0, 10 ** 6)
    n = h.choose('n', h.p('n'))
    neg, frac = n < 0, n != int(n)
    t = str(n)
    r = tryev(h, c, 'va ' + op + ' ' + t, {'va': N.Number(a)})
    if neg or frac:
        h.check(failed(r), 'negative and fractional shifts are errors')
        h.cover('error')
        return
    h.check(not failed(r), 'defined')
    if op == '<<':
        h.check(h.q(r) == h.q(a) * 2 ** n, 'shift left multiplies by 2^n')
    else:
        h.check(h.q(r) == h.floor(h.q(a) / 2 ** n), 'shift right divides by 2^n, rounding down')
    h.cover('done')


def h_shift_sym(h):
    """The shift amount may be any number: negative and fractional ones are errors."""
    c = h.calc('Computing')
    op = h.choose('op', ['<<', '>>'])
    n, qn = h.number('n', -h.p('m'), h.p('m'), 3)
    r = tryev(h, c, '5 ' + op + ' vn', {'vn': n})
    if qn < 0 or qn != h.floor(qn):
        h.check(failed(r), 'negative and fractional shifts are errors')
        h.cover('error')
    else:
        h.check(not failed(r), 'a whole shift is defined')
        h.check(h.q(r) == (h.q(5) * 2 ** h.floor(qn) if op == '<<' else h.floor(h.q(5) / 2 ** h.floor(qn))), 'shifted value')
        h.cover('done')


def h_not(h):
    """~ flips the digits the number needs in binary."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    k = h.p('k')
    a = h.int('a', 0, 2 ** k - 1)
    r = tryev(h, c, '~va', {'va': N.Number(a)})
    h.check(not failed(r), 'defined on whole numbers')
    w = 1
    for i in range(1, k + 1):
        if a >= 2 ** i:
            w = i + 1
    h.check(h.q(r) == 2 ** w - 1 - h.q(a), 'every digit is flipped')
    h.cover('done')


def h_not_literal(h):
    """~ of a binary literal flips within its written width, and ~~ gives it back."""
    c = h.calc('Computing')
    h.opaque(False)
    d = h.str('d', (1, h.p('w')), '01')
    v = h.q(0)
    for ch in d:
        v = v * 2 + h.digit(ch, '01')
    w = len(d)
    r = tryev(h, c, '~0b' + d)
    h.check(not failed(r), 'defined')
    h.check(h.q(r) == 2 ** w - 1 - v, 'every digit of the written width is flipped')
    s = r.to_string(c)
    h.check(len(s) == w + 2, 'the result keeps the width')
    r = tryev(h, c, '~~0b' + d)
    h.check(not failed(r) and h.q(r) == v, '~~ gives back the value')
    h.check(r.to_string(c) == '0b' + d, 'and the text')
    h.cover('done')


def h_width(h):
    """Combining binary literals keeps the wider of their widths, for ~ of the result too."""
    c = h.calc('Computing')
    h.opaque(False)
    op = h.choose('op', OPS)
    d = h.str('d', (1, h.p('w')), '01')
    e = h.str('e', (1, h.p('w')), '01')
    va = vb = 0
    for ch in d:
        va = va * 2 + int(ch)
    for ch in e:
        vb = vb * 2 + int(ch)
    w = max(len(d), len(e))
    want = h.bitop(op, va, vb, w)
    r = tryev(h, c, '0b' + d + ' ' + op + ' 0b' + e)
    h.check(not failed(r) and h.q(r) == want, 'digit by digit')
    h.check(len(r.to_string(c)) == w + 2, 'the wider width is kept')
    r = tryev(h, c, '~(0b' + d + ' ' + op + ' 0b' + e + ')')
    h.check(not failed(r) and h.q(r) == 2 ** w - 1 - h.q(want), '~ of the combination')
    h.cover('done')


def h_not_result(h):
    """~ of the result of another bitwise operator on plain numbers: the digits are the operands'."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    k = h.p('k')
    op = h.choose('op', OPS)
    a, b = h.int('a', 0, 2 ** k - 1), h.int('b', 0, 2 ** k - 1)
    r = tryev(h, c, '~(va ' + op + ' vb)', {'va': N.Number(a), 'vb': N.Number(b)})
    h.check(not failed(r), 'defined')
    m = a if a >= b else b
    w = 1
    for i in range(1, k + 1):
        if m >= 2 ** i:
            w = i + 1
    h.check(h.q(r) == 2 ** w - 1 - h.q(h.bitop(op, a, b, k)), 'every digit within the width of the operands is flipped')
    h.cover('done')


def h_not_error(h):
    c = h.calc('Computing')
    x, qx = h.number('x', -h.p('m'), h.p('m'), 4)
    h.assume(qx < 0 or qx != h.floor(qx))
    h.check(failed(tryev(h, c, '~vx', {'vx': x})), '~ of negative or fractional numbers is an error')
    h.cover('done')


HARNESSES = [
    dict(name='bin', fn=h_bin, quick={'k': 8}, thorough={'k': 16}, bounds='all whole numbers below 2^k', covers=['done']),
    dict(name='mixed', fn=h_mixed, quick={'k': 4, 'reps': [('binary', 'decimal'), ('hexadecimal', 'octal'), ('decimal', 'hexadecimal')]},
         thorough={'k': 8, 'reps': [(x, y) for x in ('binary', 'octal', 'hexadecimal', 'decimal') for y in ('binary', 'octal', 'hexadecimal', 'decimal')]}, bounds='whole numbers below 2^k in the listed representations', covers=['done']),
    dict(name='shift', fn=h_shift, quick={'n': [-1, 0, 1, 3, 8, 20, 0.5, 1.5]}, thorough={'n': [-2, -1, -0.5, 0.5, 1.5] + list(range(0, 31))}, bounds='values up to 10^6, the listed shifts', covers=['done', 'error']),
    dict(name='shift_sym', fn=h_shift_sym, quick={'m': 12}, thorough={'m': 40}, bounds='shift amounts n/d up to m with d up to 3', covers=['done', 'error']),
    dict(name='not', fn=h_not, quick={'k': 12}, thorough={'k': 30}, bounds='whole numbers below 2^k', covers=['done']),
    dict(name='not_literal', fn=h_not_literal, quick={'w': 7}, thorough={'w': 12}, bounds='binary literals of up to w digits', covers=['done']),
    dict(name='width', fn=h_width, quick={'w': 3}, thorough={'w': 6}, bounds='pairs of binary literals of up to w digits', covers=['done']),
    dict(name='not_result', fn=h_not_result, quick={'k': 4}, thorough={'k': 8}, bounds='whole numbers below 2^k', covers=['done']),
    dict(name='not_error', fn=h_not_error, quick={'m': 50}, thorough={'m': 10 ** 6}, bounds='n/d up to m with d up to 4', covers=['done']),
]
