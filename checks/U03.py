"""U03: arithmetic on quantities in mixed units is arithmetic on the quantities."""
from common import tryevu, failed
import unittable as U
from U01 import ptext, merge
LIBS = ['objects.number', 'objects.units']
CALCS = ['Computing']

GROUPS = [
    [[('meters', 1)], [('inches', 1)], [('miles', 1)], [('lightseconds', 1)], [('liters', 1), ('acres', -1)]],
    [[('seconds', 1)], [('weeks', 1)], [('milliseconds', 1)], [('hertz', -1)]],
    [[('kilometers', 1), ('hours', -1)], [('knots', 1)], [('inches', 1), ('days', -1)]],
    [[('joules', 1)], [('kilowatts', 1), ('hours', 1)], [('grams', 1), ('inches', 2), ('minutes', -2)], [('newtons', 1), ('feet', 1)]],
    [[('US gallons', 1)], [('feet', 3)], [('acres', 1), ('inches', 1)], [('UK pints', 1)]],
    [[('kibibytes', 1)], [('bits', 1)], [('megabytes', 1)]],
    [[('pounds', 1)], [('stone', 1)], [('grams', 1)]],
    [[('degrees', 1)], [('radians', 1)]],
    [[('meters', -2)], [('acres', -1)], [('feet', -1), ('miles', -1)]],
]


def quantity(h, c, name, ps, d=1, nonzero=False, const=None):
    N = h.lib('objects.number')
    if const is not None:
        c.vars[name] = (N.Number(*const), None)
        _, s = U.combine(ps)
        return h.q(*const) * h.q(s.numerator, s.denominator)
    n = h.int(name, -h.p('m'), h.p('m'))
    if nonzero:
        h.assume(n != 0)
    c.vars[name] = (N.Number(n, d), None)
    _, s = U.combine(ps)
    return h.q(n, d) * h.q(s.numerator, s.denominator)


def magnitude(h, v, unit):
    """Base-unit magnitude and dimensions of a result."""
    if unit is None:
        return h.q(v), {}
    dims, s = U.of(unit)
    return h.q(v) * h.q(s.numerator, s.denominator), dims


def h_add(h):
    """Sums, differences and comparisons of two quantities of one dimension, all pairs of the units of a group."""
    c = h.calc('Computing')
    h.gcd_fork(0)
    g = h.choose('group', GROUPS)
    a, b = h.choose('a', g), h.choose('b', g)
    op = h.choose('op', h.p('ops'))
    d = h.choose('d', h.p('dens'))
    qa, qb = quantity(h, c, 'va', a, d), quantity(h, c, 'vb', b)
    on = h.choose('simplify', h.p('simplify', [False]))
    c.unit_simplification_set(on)
    ta, tb = 'va ' + ptext(a), 'vb ' + ptext(b)
    if op in ('+=', '-='):
        text = 'vx = %s\nvx %s %s' % (ta, op, tb)
    else:
        text = '(%s) %s (%s)' % (ta, op, tb)
    r, u = tryevu(h, c, text)
    h.check(not failed(r), op + ': defined')
    if op in ('+', '-', '+=', '-='):
        w = qa + qb if op[0] == '+' else qa - qb
        m, dims = magnitude(h, r, u)
        h.check(dims == U.combine(a)[0], op + ': the dimensions')
        h.check(m == w, op + ': the quantity')
        if not on:
            h.check(sorted(U.parts(u)) == sorted(a), op + ': in the unit of the left operand')
    else:
        w = {'<': qa < qb, '>': qa > qb, '<=': qa <= qb, '>=': qa >= qb, '==': qa == qb, '!=': qa != qb}[op]
        h.check(h.is_true(r) == h.is_true(w), op + ': as the quantities compare')
        h.check(u is None, op + ': no unit')
    h.cover(op)


FACTORS = [[], [('meters', 1)], [('inches', 1)], [('hours', 1)], [('miles', 1), ('hours', -1)], [('seconds', -1)], [('hertz', 1)], [('joules', 1)], [('liters', 1)], [('feet', 2)],
           [('knots', 1)], [('kilograms', 1), ('minutes', -2)], [('acres', -1)], [('pounds', 1), ('feet', 1), ('seconds', -2)]]


def h_multiply(h):
    """Products and quotients of quantities: base-unit magnitudes and dimensions."""
    c = h.calc('Computing')
    h.gcd_fork(0)
    a, b = h.choose('a', FACTORS), h.choose('b', FACTORS)
    op = h.choose('op', ['*', '/'])
    c.unit_simplification_set(h.choose('simplify', h.p('simplify', [False])))
    qa = quantity(h, c, 'va', a)
    # the second operand is symbolic too for some units, else one of two constants
    qb = quantity(h, c, 'vb', b, 1, op == '/', None if a in h.p('both') and b in h.p('both') else h.choose('vbc', [(3, 1), (-7, 2)]))
    text = '(%s) %s (%s)' % ('va ' + ptext(a), op, 'vb ' + ptext(b))
    r, u = tryevu(h, c, text)
    h.check(not failed(r), op + ': defined')
    m, dims = magnitude(h, r, u)
    da, db = U.combine(a)[0], U.combine(b)[0]
    k = 1 if op == '*' else -1
    want = {x: da.get(x, 0) + k * db.get(x, 0) for x in set(da) | set(db)}
    h.check(dims == {x: n for x, n in want.items() if n}, op + ': the dimensions')
    h.check(m == (qa * qb if op == '*' else qa / qb), op + ': the quantity')
    h.cover(op)


def h_chain(h):
    """Three factors, multiplied and divided."""
    c = h.calc('Computing')
    h.gcd_fork(0)
    L = h.p('factors')
    fs = [h.choose('f%d' % i, L) for i in range(3)]
    ops = [h.choose('o%d' % i, ['*', '/']) for i in range(2)]
    c.unit_simplification_set(h.choose('simplify', h.p('simplify', [False])))
    qs = [quantity(h, c, 'v' + 'abc'[i], f, 1, False, [None, (-6, 1), (7, 2)][i]) for i, f in enumerate(fs)]
    t = ['(v%s %s)' % ('abc'[i], ptext(f)) for i, f in enumerate(fs)]
    r, u = tryevu(h, c, '%s %s %s %s %s' % (t[0], ops[0], t[1], ops[1], t[2]))
    h.check(not failed(r), 'defined')
    w = qs[0]
    want = dict(U.combine(fs[0])[0])
    for o, q, f in zip(ops, qs[1:], fs[1:]):
        w = w * q if o == '*' else w / q
        for k, n in U.combine(f)[0].items():
            want[k] = want.get(k, 0) + (n if o == '*' else -n)
    m, dims = magnitude(h, r, u)
    h.check(dims == {x: n for x, n in want.items() if n}, 'the dimensions')
    h.check(m == w, 'the quantity')
    h.cover('done')


def h_power(h):
    """Whole powers of quantities."""
    c = h.calc('Computing')
    h.gcd_fork(0)
    a = h.choose('a', FACTORS)
    n = h.choose('n', h.p('powers'))
    c.unit_simplification_set(h.choose('simplify', h.p('simplify', [False])))
    qa = quantity(h, c, 'va', a, 1, n <= 0)
    form = h.choose('form', ['^', '^=']) if n > 0 else '^'
    ta = 'va ' + ptext(a)
    r, u = tryevu(h, c, '(%s)^(%d)' % (ta, n) if form == '^' else 'vx = %s\nvx ^= %d' % (ta, n))
    h.check(not failed(r), 'defined')
    m, dims = magnitude(h, r, u)
    want = {k: v * n for k, v in U.combine(a)[0].items() if n}
    h.check(dims == want, 'the dimensions')
    h.check(m == qa ** n, 'the quantity')
    h.cover('negative' if n < 0 else 'zero' if n == 0 else 'positive')


def h_scale(h):
    """A plain number times, over or into a quantity; % and \\ of two quantities of one dimension."""
    c = h.calc('Computing')
    h.gcd_fork(0)
    a = h.choose('a', [f for f in FACTORS if f])
    c.unit_simplification_set(False)
    form = h.choose('form', ['vb * (va U)', '(va U) * vb', '(va U) / vb', 'vb / (va U)', 'vb (va U)', 'abs(va U)', '(va U) * 3', '(va U) vb'])
    qa = quantity(h, c, 'va', a, 1, form == 'vb / (va U)')
    qb = quantity(h, c, 'vb', [], 1, form == '(va U) / vb')
    r, u = tryevu(h, c, form.replace('U', ptext(a)))
    h.check(not failed(r), 'defined')
    m, dims = magnitude(h, r, u)
    da = U.combine(a)[0]
    w = {'(va U) / vb': lambda: qa / qb, 'vb / (va U)': lambda: qb / qa, 'abs(va U)': lambda: abs(qa), '(va U) * 3': lambda: qa * h.q(3)}.get(form, lambda: qa * qb)()
    h.check(dims == ({k: -v for k, v in da.items()} if form == 'vb / (va U)' else da), 'the dimensions')
    h.check(m == w, 'the quantity')
    h.cover('done')


OPS = ['+', '-', '<', '>', '<=', '>=', '==', '!=', '+=', '-=']
HARNESSES = [
    dict(name='add', fn=h_add, quick={'m': 1000, 'ops': ['+', '-', '<', '=='], 'dens': [1]}, thorough={'m': 10 ** 6, 'ops': OPS, 'dens': [1, 7], 'simplify': [False, True]}, bounds='whole (thorough: n/7) numbers up to m, all pairs of units within 9 groups', covers=['+', '<']),
    dict(name='multiply', fn=h_multiply, quick={'m': 1000, 'both': FACTORS[:4]}, thorough={'m': 10 ** 6, 'both': FACTORS, 'simplify': [False, True]}, bounds='all ordered pairs of 14 units (one of them none)', covers=['*', '/']),
    dict(name='chain', fn=h_chain, quick={'m': 100, 'factors': [FACTORS[i] for i in (2, 4, 6, 8)]}, thorough={'m': 1000, 'factors': FACTORS, 'simplify': [False]}, bounds='three factors from 4 (thorough: 14) units', covers=['done']),
    dict(name='power', fn=h_power, quick={'m': 100, 'powers': [-2, -1, 0, 1, 2, 3]}, thorough={'m': 1000, 'powers': [-4, -3, -2, -1, 0, 1, 2, 3, 4, 5]}, bounds='powers -2..3 (-4..5) of quantities in 14 units', covers=['negative', 'zero', 'positive']),
    dict(name='scale', fn=h_scale, quick={'m': 1000}, thorough={'m': 10 ** 6}, bounds='13 units, 8 forms', covers=['done']),
]
