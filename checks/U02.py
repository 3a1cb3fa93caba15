"""U02: quantities of different dimensions never mix."""
from common import tryevu, failed
import unittable as U
from U01 import REP, COMPOUND, ptext, merge
LIBS = ['objects.number', 'objects.units']
CALCS = ['Computing']

OPS = ['+', '-', '<', '>', '<=', '>=', '==', '!=', 'to']
FUNCS = ['sum', 'mean', 'min', 'max', 'median']


def quantity(h, c, name, ps):
    x, q = h.number(name, -h.p('m'), h.p('m'), 1)
    c.vars[name] = (x, None)
    return q, name + (' ' + ptext(ps) if ps else '')


def judge(h, c, op, ta, tb, a, b):
    same = (not a and not b) or (bool(a) and bool(b) and U.combine(a)[0] == U.combine(b)[0])
    if op == 'to':
        if not b:
            return
        tb = ptext(b)
    if op in FUNCS:
        text = '%s([%s, %s])' % (op, ta, tb)
    elif op == 'assign':
        text = 'vx = %s\nvx += %s' % (ta, tb)
    else:
        text = '(%s) %s %s' % (ta, op, '(' + tb + ')' if op != 'to' else tb)
    h.gcd_fork(0)
    c.unit_simplification_set(False)
    r, u = tryevu(h, c, text)
    if same and not (op == 'to' and not a):
        h.check(not failed(r), op + ': accepted where the dimensions agree')
        if op in ('+', '-', 'to', 'sum', 'mean', 'median', 'min', 'max', 'assign'):
            h.check((U.of(u)[0] if u is not None else None) == (U.combine(a)[0] if a else None), op + ': the dimensions stay')
        else:
            h.check(isinstance(r, bool) and u is None, op + ': true or false')
        h.cover('accepted')
    else:
        h.check(failed(r), op + ': an error where the dimensions differ')
        h.cover('error')


def h_simple(h):
    """One unit of every dimension (and no unit) with every other."""
    c = h.calc('Computing')
    a, b = h.choose('a', [None] + REP), h.choose('b', [None] + REP)
    op = h.choose('op', h.p('ops'))
    a = [(a, 1)] if a else []
    b = [(b, 1)] if b else []
    ta = quantity(h, c, 'va', a)[1]
    tb = quantity(h, c, 'vb', b)[1]
    judge(h, c, op, ta, tb, a, b)


def h_compound(h):
    """Compound units written in different ways."""
    c = h.calc('Computing')
    a, b = h.choose('a', COMPOUND), h.choose('b', COMPOUND)
    op = h.choose('op', h.p('ops'))
    ta = quantity(h, c, 'va', a)[1]
    tb = quantity(h, c, 'vb', b)[1]
    judge(h, c, op, ta, tb, a, b)


WAYS = [('kilometers/hours', [('kilometers', 1), ('hours', -1)]), ('kilometers hours^-1', [('kilometers', 1), ('hours', -1)]), ('hours^-1 kilometers', [('kilometers', 1), ('hours', -1)]),
        ('km/h', [('kilometers', 1), ('hours', -1)]), ('kilograms meters^2/seconds^2', [('kilograms', 1), ('meters', 2), ('seconds', -2)]),
        ('meters kilograms meters seconds^-2', [('kilograms', 1), ('meters', 2), ('seconds', -2)]), ('newtons meters', [('newtons', 1), ('meters', 1)]),
        ('watts seconds', [('watts', 1), ('seconds', 1)]), ('J', [('joules', 1)]), ('meters/seconds', [('meters', 1), ('seconds', -1)]), ('meters/seconds^2', [('meters', 1), ('seconds', -2)]),
        ('m', [('meters', 1)]), ('FEET', [('feet', 1)]), ('Acre', [('acres', 1)]), ('inch^2', [('inches', 2)]), ('pascals meters^3', [('pascals', 1), ('meters', 3)]),
        ('1', []), ('coulombs volts', [('coulombs', 1), ('volts', 1)]), ('hertz meters', [('hertz', 1), ('meters', 1)])]


def h_ways(h):
    """The same dimensions whatever way the unit is written: order, symbols, names, quotients."""
    c = h.calc('Computing')
    (wa, a), (wb, b) = h.choose('a', WAYS), h.choose('b', WAYS)
    op = h.choose('op', h.p('ops'))
    quantity(h, c, 'va', a)
    quantity(h, c, 'vb', b)
    ta = 'va ' + wa if a else 'va'
    tb = 'vb ' + wb if b else 'vb'
    if op == 'to':
        if not b:
            return
        same = bool(a) and U.combine(a)[0] == U.combine(b)[0]
        h.gcd_fork(0)
        r, u = tryevu(h, c, ta + ' to ' + wb)
        h.check(failed(r) != same, 'to: accepted exactly where the dimensions agree')
        h.cover('accepted' if same else 'error')
        return
    judge(h, c, op, ta, tb, a, b)


def h_computed(h):
    """Units that come out of a calculation: products, quotients and powers."""
    c = h.calc('Computing')
    va = quantity(h, c, 'va', [])
    vb = quantity(h, c, 'vb', [])
    made = [('(va meters) * (1 seconds)', [('meters', 1), ('seconds', 1)]), ('(va meters) * (2 hertz)', [('meters', 1), ('hertz', 1)]), ('(va meters) / (2 seconds)', [('meters', 1), ('seconds', -1)]),
            ('(va meters) ^ 2', [('meters', 2)]), ('(va inches) * (3 meters)', [('meters', 2)]), ('(va joules) / (2 newtons)', [('meters', 1)]), ('(va meters) / (2 inches)', []),
            ('(va meters) * (3 meters) / (2 inches)', [('meters', 1)]), ('(va kilograms) * (2 meters) / (4 seconds) / (5 hours)', [('newtons', 1)]), ('va knots', [('knots', 1)]),
            ('va meters', [('meters', 1)]), ('va meters seconds', [('meters', 1), ('seconds', 1)]), ('va acres', [('acres', 1)]), ('va', [])]
    (ta, a), (tb, b) = h.choose('a', made), h.choose('b', made)
    tb = tb.replace('va', 'vb')
    op = h.choose('op', ['+', '<', 'sum'])
    judge(h, c, op, ta, tb, a, b)


HARNESSES = [
    dict(name='simple', fn=h_simple, quick={'m': 1000, 'ops': ['+', '<']}, thorough={'m': 10 ** 6, 'ops': OPS + FUNCS + ['assign']}, bounds='all ordered pairs of 33 (one unit of each dimension, no unit)', covers=['accepted', 'error']),
    dict(name='compound', fn=h_compound, quick={'m': 1000, 'ops': ['-', '==', 'max']}, thorough={'m': 10 ** 6, 'ops': OPS + FUNCS + ['assign']}, bounds='all ordered pairs of 31 compound units', covers=['accepted', 'error']),
    dict(name='ways', fn=h_ways, quick={'m': 1000, 'ops': ['+', '-', '<', '!=', 'to', 'sum', 'assign']}, thorough={'m': 10 ** 6, 'ops': OPS + FUNCS + ['assign']}, bounds='all ordered pairs of 19 written units, all operators', covers=['accepted', 'error']),
    dict(name='computed', fn=h_computed, quick={'m': 1000}, thorough={'m': 10 ** 6}, bounds='all ordered pairs of 14 computed quantities', covers=['accepted', 'error']),
]
