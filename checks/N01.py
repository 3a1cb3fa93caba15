"""N01: arithmetic on numbers is exact rational arithmetic."""
from common import tryev, failed
LIBS = ['objects.number']
CALCS = ['Computing']
M = 10 ** 15
ASSUMES = ['gcd of two symbolic integers is an opaque positive common divisor with coprime cofactors']


def shape(h, x):
    h.check(x.den > 0, 'denominator positive')
    h.check(x.num == x.num.to_integral_value() and x.den == x.den.to_integral_value(), 'numerator and denominator are whole')


def h_make(h):
    """Construction from a pair of integers keeps the value and gives lowest terms."""
    import math
    N = h.lib('objects.number')
    n = h.int('num', -M, M)
    d = h.int('den', -M, M)
    try:
        x = N.Number(n, d)
    except Exception:
        h.check(d == 0, 'only a zero denominator is refused')
        h.cover('error')
        return
    h.check(d != 0, 'a zero denominator is refused')
    h.check(h.q(x.num) * h.q(d) == h.q(n) * h.q(x.den), 'constructor keeps the value')
    shape(h, x)
    g = math.gcd(int(x.num), int(x.den))
    h.check(g == 1, 'lowest terms')
    h.cover('done')


def h_make_dec(h):
    """Construction from terminating decimals keeps the value."""
    N = h.lib('objects.number')
    from decimal import Decimal
    pl = h.choose('places', [0, 1, 2, 3])
    n = h.int('num', -M, M)
    x = N.Number(Decimal(n) / Decimal(10 ** pl))
    h.check(h.q(x.num) * 10 ** pl == h.q(n) * h.q(x.den), 'constructor keeps the decimal value')
    shape(h, x)
    h.cover('done')


def binop(op):
    def f(h):
        a, qa = h.number('a', -M, M, M)
        b, qb = h.number('b', -M, M, M)
        if op == '+':
            r, q = a + b, qa + qb
        elif op == '-':
            r, q = a - b, qa - qb
        else:
            r, q = a * b, qa * qb
        h.check(h.q(r) == q, 'exact ' + op)
        shape(h, r)
        h.observe(r)
        h.cover('done')
    return f


def h_div(h):
    a, qa = h.number('a', -M, M, M)
    b, qb = h.number('b', -M, M, M)
    try:
        r = a / b
    except Exception:
        h.cover('error')
        h.check(qb == 0, 'division fails only by zero')
        return
    h.check(qb != 0, 'division by zero is an error')
    h.check(h.q(r) * qb == qa, 'exact /')
    shape(h, r)
    h.observe(r)
    h.cover('done')


def h_unary(h):
    import math
    a, qa = h.number('a', -M, M, M)
    h.check(h.q(-a) == -qa, 'negation')
    h.check(h.q(abs(a)) == (qa if qa >= 0 else -qa), 'absolute value')
    h.check(h.q(a.copy()) == qa, 'copy')
    shape(h, -a)
    shape(h, abs(a))
    h.cover('done')


def h_pow(h):
    a, qa = h.number('a', -10 ** 6, 10 ** 6, 10 ** 6)
    n = h.choose('n', list(range(-h.p('n'), h.p('n') + 1)))
    N = h.lib('objects.number')
    try:
        r = a ** N.Number(n)
    except Exception:
        h.check(qa == 0 and n <= 0, 'a power fails only for zero to a power that is not positive')
        h.cover('error')
        return
    h.check(n > 0 or qa != 0, 'zero to a power that is not positive is an error')
    if n >= 0:
        h.check(h.q(r) == qa ** n, 'exact power')
    else:
        h.check(h.q(r) * qa ** -n == 1, 'exact negative power')
    shape(h, r)
    h.observe(r)
    h.cover('done')


OPS = ['+', '-', '*', '/']


def apply(op, x, y):
    if op == '+':
        return x + y
    if op == '-':
        return x - y
    return x * y if op == '*' else x / y


def h_calc(h):
    """The calculator's operators, on variables."""
    c = h.calc('Computing')
    a, qa = h.number('a', -M, M, M)
    b, qb = h.number('b', -M, M, M)
    op = h.choose('op', OPS)
    r = tryev(h, c, 'va ' + op + ' vb', {'va': a, 'vb': b})
    if failed(r):
        h.check(op == '/' and qb == 0, 'the operator fails only when dividing by zero')
        h.cover('error')
        return
    h.check(op != '/' or qb != 0, 'division by zero is an error')
    if op == '/':
        h.check(h.q(r) * qb == qa, 'a / b exact')
    else:
        h.check(h.q(r) == apply(op, qa, qb), 'a op b exact')
    shape(h, r)
    h.check(h.q(a) == qa and h.q(b) == qb, 'operands unchanged')
    h.cover('done')


def h_chain(h):
    """Chains of three operands through the calculator."""
    c = h.calc('Computing')
    L = 10 ** 4
    a, qa = h.number('a', -L, L, L)
    b, qb = h.number('b', -L, L, L, nonzero=True)
    d, qd = h.number('d', -L, L, 1, nonzero=True)
    op1, op2 = h.choose('ops', [o.split() for o in h.p('ops')])
    r = tryev(h, c, '(va ' + op1 + ' vb) ' + op2 + ' vd', {'va': a, 'vb': b, 'vd': d})
    h.check(not failed(r), 'a chain without division by zero has a value')
    want = apply(op2, apply(op1, qa, qb), qd)
    h.check(h.q(r) == want, 'chain exact')
    h.observe(r)
    h.cover('done')


HARNESSES = [
    dict(name='make', fn=h_make, quick={}, bounds='numerator and denominator any integers up to 10^15 in magnitude', covers=['done', 'error']),
    dict(name='make_dec', fn=h_make_dec, quick={}, bounds='decimals with up to 3 places, up to 10^15 in magnitude', covers=['done']),
    dict(name='add', fn=binop('+'), quick={}, bounds='numerators and denominators up to 10^15 in magnitude', covers=['done']),
    dict(name='sub', fn=binop('-'), quick={}, bounds='as add', covers=['done']),
    dict(name='mul', fn=binop('*'), quick={}, bounds='as add', covers=['done']),
    dict(name='div', fn=h_div, quick={}, bounds='as add', covers=['done', 'error']),
    dict(name='unary', fn=h_unary, quick={}, bounds='as add', covers=['done']),
    dict(name='pow', fn=h_pow, quick={'n': 4}, thorough={'n': 8}, bounds='integer exponents from -n to n, operands up to 10^6', covers=['done', 'error']),
    dict(name='calc', fn=h_calc, quick={}, bounds='as add, through calculate() with variables', covers=['done', 'error']),
    dict(name='chain', fn=h_chain, quick={'ops': ['/ *', '/ +', '- /', '* -']}, thorough={'ops': [a + ' ' + b for a in OPS for b in OPS]}, bounds='(a op b) op d, fractions up to 10^4 and an integer', covers=['done']),
]
