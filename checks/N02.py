"""N02: comparisons are one total order, consistent with equality and hashing."""
from common import tryev, failed
LIBS = ['objects.number']
CALCS = ['Computing']
M = 10 ** 12


def h_order(h):
    """The rich comparisons of two arbitrary fractions."""
    a, qa = h.number('a', -M, M, M)
    b, qb = h.number('b', -M, M, M)
    r = [h.is_true(a < b), h.is_true(a == b), h.is_true(a > b)]
    h.check(r.count(True) == 1, 'exactly one of <, ==, > holds')
    if r[0]:
        h.check(qa < qb, '< of the exact values')
    elif r[1]:
        h.check(qa == qb, '== of the exact values')
    else:
        h.check(qa > qb, '> of the exact values')
    h.check(h.is_true(a <= b) == (r[0] or r[1]), '<= agrees')
    h.check(h.is_true(a >= b) == (r[2] or r[1]), '>= agrees')
    h.check(h.is_true(a != b) == (not r[1]), '!= agrees')
    h.cover('lt' if r[0] else 'eq' if r[1] else 'gt')


def h_calc(h):
    """The calculator's comparison operators."""
    c = h.calc('Computing')
    a, qa = h.number('a', -M, M, M)
    b, qb = h.number('b', -M, M, M)
    op = h.choose('op', ['<', '>', '<=', '>=', '==', '!='])
    r = tryev(h, c, 'va ' + op + ' vb', {'va': a, 'vb': b})
    h.check(not failed(r), 'two numbers can always be compared')
    if op == '<':
        want = qa < qb
    elif op == '>':
        want = qa > qb
    elif op == '<=':
        want = qa <= qb
    elif op == '>=':
        want = qa >= qb
    elif op == '==':
        want = qa == qb
    else:
        want = qa != qb
    if h.is_true(r):
        h.check(want, op + ' true only when it holds')
        h.cover('true')
    else:
        h.check(not h.is_true(want), op + ' false only when it does not hold')
        h.cover('false')


def h_close(h):
    """Numbers that differ very little, and very big ones."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    den, big = h.choose('scale', [(10 ** 20, 1), (10 ** 90, 1), (3 ** 60, 1), (7, 10 ** 70), (1, 10 ** 95)])
    n, k = h.int('n', -99, 99), h.int('k', -9, 9)
    h.coprime(n, den)
    h.coprime(n + k, den)
    a, b = N.Number(n * big if big > 1 else n, den), N.Number((n + k) * big if big > 1 else n + k, den)
    h.check(h.is_true(a == b) == h.is_true(k == 0), 'equal exactly if the same')
    h.check(h.is_true(a != b) == (not h.is_true(k == 0)), 'different exactly if not the same')
    h.check(h.is_true(a < b) == h.is_true(k > 0), 'less exactly if it is')
    h.check(h.is_true(a >= b) == h.is_true(k <= 0), 'not less exactly if it is not')
    r = tryev(h, c, h.choose('op', ['va == vb', 'not (va != vb)', 'va <= vb and va >= vb', 'vb == va', 'not (va < vb or va > vb)']), {'va': a, 'vb': b})
    h.check(h.is_true(r) == h.is_true(k == 0), 'the operators agree')
    if h.is_true(k == 0):
        h.check(h.hash_of(a) == h.hash_of(b), 'equal hashes')
    h.cover('equal' if h.is_true(k == 0) else 'different')


def h_hash(h):
    """Equal values built from different fractions and in different representations hash alike."""
    N = h.lib('objects.number')
    n = h.int('n', -10 ** 6, 10 ** 6)
    d = h.int('d', 1, 10 ** 6)
    k = h.int('k', -h.p('k'), h.p('k'))
    h.assume(k != 0)
    h.coprime(n, d)
    a = N.Number(n, d)
    b = N.Number(n * k, d * k)
    if h.choose('cast', [False, True]):
        b.number_cast = {'to_string': None, 'places_offset': 2}
        b = b.copy()
    h.check(h.is_true(a == b), 'equal')
    h.check(h.hash_of(a) == h.hash_of(b), 'equal hashes')
    h.cover('done')


def h_trans(h):
    a, qa = h.number('a', -10 ** 6, 10 ** 6, 10 ** 3)
    b, qb = h.number('b', -10 ** 6, 10 ** 6, 10 ** 3)
    d, qd = h.number('d', -10 ** 6, 10 ** 6, 10 ** 3)
    if h.is_true(a <= b) and h.is_true(b <= d):
        h.check(qa <= qd, 'transitive over exact values')
        h.cover('done')


HARNESSES = [
    dict(name='order', fn=h_order, quick={}, bounds='fractions with numerator and denominator up to 10^12', covers=['lt', 'eq', 'gt']),
    dict(name='calc', fn=h_calc, quick={}, bounds='as order', covers=['true', 'false']),
    dict(name='close', fn=h_close, quick={}, bounds='n and n + k for n to 99 and k to 9, times 10^-20, 10^-90, 3^-60, 10^70/7 and 10^95', covers=['equal', 'different']),
    dict(name='hash', fn=h_hash, quick={'k': 6}, thorough={'k': 50}, bounds='fractions up to 10^6 scaled by k', covers=['done']),
    dict(name='trans', fn=h_trans, quick={}, bounds='numerators to 10^6, denominators to 10^3', covers=['done']),
]
