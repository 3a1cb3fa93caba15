"""N06: the decimal text of a number is correctly rounded, canonical and re-readable."""
from common import tryev, failed
LIBS = ['objects.number']
CALCS = ['Computing']
DIG = '0123456789'


def canonical(h, t):
    """[-]whole[.fraction] without superfluous zeros."""
    body = t[1:] if t[0] == '-' else t
    h.check(len(body) > 0, 'not empty')
    parts = body.split('.')
    h.check(len(parts) <= 2, 'one point at most')
    for q in parts:
        h.check(len(q) > 0, 'digits on both sides of a point')
        for ch in q:
            h.check(ch in DIG, 'only digits')
    if len(parts[0]) > 1:
        h.check(parts[0][0] != '0', 'no leading zero')
    if len(parts) == 2:
        h.check(parts[1][-1] != '0', 'no trailing zero')
    elif len(body) == 1 and len(body) != len(t):
        h.check(body != '0', 'never -0')
    return parts


def rounded(h, v, qx, p):
    """v is qx rounded half away from zero to p places."""
    from fractions import Fraction
    u = Fraction(10) ** p
    s, t = v * u, qx * u
    h.check(s == h.floor(s), 'at most the configured number of places')
    h.check(2 * t <= 2 * s + 1 and 2 * t >= 2 * s - 1, 'nearest')
    if qx >= 0:
        h.check(2 * t != 2 * s + 1, 'ties away from zero')
    else:
        h.check(2 * t != 2 * s - 1, 'ties away from zero')


def h_text(h):
    c = h.calc('Computing')
    N = h.lib('objects.number')
    h.opaque(False)
    p = h.choose('places', h.p('places'))
    c.number_prec_set(p)
    x, qx = h.number('x', -h.p('m'), h.p('m'), h.p('d'))
    t = x.to_string(c)
    parts = canonical(h, t)
    v = N.Number(t)
    rounded(h, h.q(v), qx, p)
    h.check(h.q(x) == qx, 'operand unchanged')
    h.observe(t)
    if len(parts) == 2:
        h.cover('fraction')
    elif t[0] == '-':
        h.cover('negative')


def h_tiny(h):
    """Values too small to show, and the default number of places."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    h.opaque(False)
    e = h.choose('e', h.p('e'))
    n = h.int('n', -h.p('n'), h.p('n'))
    x = N.Number(n) / N.Number(10 ** e)
    t = x.to_string(c)
    parts = canonical(h, t)
    rounded(h, h.q(N.Number(t)), h.q(n, 10 ** e), 30)
    h.cover('zero' if t == '0' else 'shown')


def h_big(h):
    """Whole numbers near the configured number size."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    h.opaque(False)
    e = h.choose('e', h.p('e'))
    n = h.int('n', 1, 99)
    neg = h.choose('neg', [False, True])
    x = N.Number(-n if neg else n) * N.Number(10 ** e)
    t = x.to_string(c)
    canonical(h, t)
    h.check(h.q(N.Number(t)) == h.q(x), 'a whole number is shown exactly')
    h.observe(t)
    h.cover('done')


def h_literal(h):
    """Reading a literal gives the value written; the shown value reads back."""
    c = h.calc('Computing')
    h.opaque(False)
    from fractions import Fraction
    neg = h.choose('neg', ['', '-'])
    a = h.str('whole', (1, h.p('w')), DIG)
    b = h.str('frac', (0, h.p('f')), DIG)
    t = neg + a + ('.' + b if len(b) > 0 else '')
    w = 0
    for ch in a + b:
        w = w * 10 + int(ch)
    want = h.q(w) / 10 ** len(b)
    if neg:
        want = -want
    r = tryev(h, c, t)
    h.check(not failed(r), 'a literal is a number')
    h.check(h.q(r) == want, 'the literal denotes its positional value')
    s = r.to_string(c)
    canonical(h, s)
    r2 = tryev(h, c, s)
    h.check(not failed(r2) and h.q(r2) == want, 'the text reads back')
    h.cover('done')


HARNESSES = [
    dict(name='text', fn=h_text, quick={'m': 10 ** 5, 'd': 10 ** 3, 'places': [0, 1, 3]}, thorough={'m': 10 ** 9, 'd': 10 ** 9, 'places': [0, 1, 2, 3, 5, 10, 30]},
         bounds='fractions up to m/d, the listed numbers of places', covers=['fraction', 'negative']),
    dict(name='tiny', fn=h_tiny, quick={'e': [28, 31, 40], 'n': 1000}, thorough={'e': list(range(26, 45)), 'n': 10 ** 6}, bounds='n * 10^-e, default 30 places', covers=['zero', 'shown']),
    dict(name='big', fn=h_big, quick={'e': [0, 50, 67, 70, 80, 98]}, thorough={'e': list(range(0, 99))}, bounds='n * 10^e for n up to 99, whole numbers of up to 100 digits', covers=['done']),
    dict(name='literal', fn=h_literal, quick={'w': 3, 'f': 2}, thorough={'w': 5, 'f': 4}, bounds='up to w digits before and f after the point', covers=['done']),
]
