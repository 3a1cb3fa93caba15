"""U04: unit simplification changes the unit, never the quantity."""
from common import tryevu, failed
import unittable as U
from U01 import ptext, merge
from U03 import magnitude
LIBS = ['objects.number', 'objects.units']
CALCS = ['Computing']
ASSUMES = ['the closeness of candidate units (a float logarithm) is compared exactly; the property does not depend on the choice']

UNITS = [
    # lists of (unit, power): what simplification is asked to rewrite
    [('meters', 1), ('kilometers', 1)], [('meters', 1), ('kilometers', -1)], [('miles', 1), ('feet', 1), ('inches', 1)], [('miles', 2), ('inches', -1)], [('feet', 1), ('inches', -2)],
    [('meters', 2), ('centimeters', 1)], [('meters', 3), ('kilometers', -1), ('millimeters', -1)],
    [('kilograms', 1), ('meters', 1), ('seconds', -2)], [('kilograms', 1), ('meters', 2), ('seconds', -2)], [('grams', 1), ('inches', 2), ('hours', -2)],
    [('newtons', 1), ('meters', 1)], [('newtons', 1), ('meters', -2)], [('watts', 1), ('hours', 1)], [('watts', 1), ('amperes', -1)], [('volts', 1), ('amperes', 1), ('hours', 1)],
    [('joules', 1), ('newtons', -1)], [('joules', 1), ('seconds', -1)], [('seconds', -1)], [('hours', -1)], [('meters', -1)], [('meters', -3)], [('ohms', -1)], [('hertz', -1)], [('volts', -1)],
    [('hertz', 1), ('seconds', 1)], [('hertz', 1), ('minutes', 1)], [('hertz', 2), ('meters', 1)], [('knots', 1), ('hours', 1)], [('knots', 1), ('seconds', -1)],
    [('knots', 1), ('nautical miles', 1), ('seconds', -1)], [('newtons', 1), ('kilograms', -1), ('nautical miles', 1)], [('newtons', 1), ('hours', 1), ('kilograms', -1)],
    [('newtons', 1), ('nautical miles', 1), ('hours', 1), ('kilograms', -1), ('nautical miles', -1)],
    [('acres', 1), ('feet', 1)], [('acres', 1), ('feet', -1)], [('UK gallons', 1), ('acres', -1)], [('US pints', 1), ('UK pints', -1)], [('liters', 1), ('hectares', -1)], [('liters', 1), ('meters', -3)],
    [('meters', 2), ('seconds', -2)], [('meters', 2), ('hours', -2)], [('meters', 1), ('seconds', -2)], [('miles', 1), ('hours', -1)], [('meters', 4), ('seconds', -4)], [('kilograms', 2), ('meters', 2), ('seconds', -4)],
    [('days', 2), ('weeks', -2), ('knots', 3)], [('bytes', 1), ('seconds', -1)], [('bytes', 1), ('bits', -1)], [('bytes', 1), ('hertz', 1)], [('moles', 1), ('seconds', -1)],
    [('candelas', 1), ('steradians', 1), ('feet', -2)], [('pounds', 1), ('feet', 1), ('seconds', -2)], [('Celsius', 1), ('joules', 1), ('newtons', -1)], [('Fahrenheit', 1), ('Celsius', -1)], [('kelvin', 1), ('Fahrenheit', 1)],
    [('pascals', 1), ('meters', 3)], [('atmospheres', 1), ('liters', 1)], [('teslas', 1), ('meters', 2)], [('henries', 1), ('amperes', 2)], [('farads', 1), ('volts', 2)],
    [('meters', 1), ('seconds', 1)], [('meters', 1), ('kilograms', 1), ('amperes', 1)], [('degrees', 1), ('seconds', -1)], [('degrees', 1), ('radians', -1)], [('gees', 1), ('kilograms', 1)], [('sieverts', 1), ('kilograms', 1)],
    [('grays', 1), ('liters', -1), ('nautical miles', 3)], [('miles', 2), ('nautical miles', 1), ('newtons', 1), ('stone', -1)],
]


def value(h, c, zero=False):
    N = h.lib('objects.number')
    if zero:
        c.vars['va'] = (N.Number(0), None)
        return h.q(0)
    d = h.choose('d', h.p('dens'))
    n = h.int('n', h.p('lo'), h.p('m'))
    c.vars['va'] = (N.Number(n, d), None)
    return h.q(n, d)


def build(ps):
    """An expression that computes va times the unit."""
    return '(va %s)' % ps[0][0] + (' ^ 1' if False else '') if len(ps) == 1 and ps[0][1] == 1 else \
        'va ' + ' '.join(('* (1 %s)' % n if p > 0 else '/ (1 %s)' % n) + ('' if abs(p) == 1 else '^%d' % abs(p)) for n, p in ps)


def judge(h, c, text, ps, q, label):
    r, u = tryevu(h, c, text)
    h.check(not failed(r), label + ': defined')
    dims, s = U.combine(ps)
    m, d = magnitude(h, r, u)
    h.check(d == dims, label + ': the dimensions')
    h.check(m == q * h.q(s.numerator, s.denominator), label + ': the quantity')


def h_result(h):
    """The result of a calculation, as it is simplified on its way out."""
    c = h.calc('Computing')
    h.gcd_fork(0)
    c.unit_simplification_set(True)
    ps = h.choose('unit', UNITS)
    q = value(h, c)
    judge(h, c, build(ps), ps, q, 'result')
    h.cover('done')


def h_zero(h):
    """Zero."""
    c = h.calc('Computing')
    c.unit_simplification_set(True)
    ps = h.choose('unit', UNITS)
    q = value(h, c, True)
    judge(h, c, h.choose('text', [build(ps), 'compact(va %s)' % ptext(ps), '[%s]' % build(ps)][:2]), ps, q, 'zero')
    h.cover('done')


def h_compact(h):
    """compact(...) simplifies whatever the setting."""
    c = h.calc('Computing')
    h.gcd_fork(0)
    c.unit_simplification_set(h.choose('on', [False, True]))
    ps = h.choose('unit', h.p('units'))
    q = value(h, c)
    judge(h, c, 'compact(va %s)' % ptext(ps), ps, q, 'compact')
    h.cover('done')


TINY = [(10, -400), (10, -330), (10, -90), (10, 90), (10, 330), (10, 400), (1, 0), (-10, -400), (-10, 330)]


def h_extreme(h):
    """Very small and very large values (beyond what a float holds)."""
    c = h.calc('Computing')
    c.unit_simplification_set(True)
    ps = h.choose('unit', h.p('units'))
    e = h.choose('e', [-400, -330, -310, -100, 100, 310, 330, 400])
    neg = h.choose('neg', ['', '0 - '])
    t = build(ps).replace('va', '(%s1E%d)' % (neg, e), 1)
    r, u = tryevu(h, c, t)
    h.check(not failed(r), 'defined')
    dims, s = U.combine(ps)
    m, d = magnitude(h, r, u)
    w = h.q(s.numerator, s.denominator) * h.q(10) ** e * h.q(-1 if neg else 1)
    h.check(d == dims, 'the dimensions')
    # the size of a number is limited to 100 digits
    h.check(abs(m - w) <= abs(w) * h.q(1, 10 ** 90), 'the quantity')
    h.cover('done')


def h_off(h):
    """With simplification off, or a unit requested with to (or written after a number), the unit stays as it is."""
    c = h.calc('Computing')
    h.gcd_fork(0)
    ps = h.choose('unit', UNITS)
    form = h.choose('form', ['off', 'to'])
    c.unit_simplification_set(form == 'to')
    if form == 'to' and not U.combine(ps)[0]:
        return
    q = value(h, c)
    text = build(ps) if form == 'off' else '%s to %s' % (build(ps), ptext(ps))
    r, u = tryevu(h, c, text)
    h.check(not failed(r), 'defined')
    dims, s = U.combine(ps)
    m, d = magnitude(h, r, u)
    h.check(d == dims and m == q * h.q(s.numerator, s.denominator), 'the quantity')
    if form == 'to':
        h.check(sorted(U.parts(u)) == sorted(merge(ps)), 'the unit asked for')
    else:
        # no unit that was not written
        h.check(set(n for n, p in U.parts(u)) <= set(n for n, p in ps), 'no other unit')
    h.cover(form)


def h_literal(h):
    """A unit asked for with to survives further statements and variables."""
    c = h.calc('Computing')
    h.gcd_fork(0)
    c.unit_simplification_set(True)
    ps = h.choose('unit', [u for u in UNITS if len(u) > 1])
    q = value(h, c)
    form = h.choose('form', ['vx = (va U) to U\nvx', '(va U) to U', '[(va U) to U]', 'true then ((va U) to U) else 5'])
    r, u = tryevu(h, c, form.replace('U', ptext(ps)))
    h.check(not failed(r), 'defined')
    if form.startswith('['):
        r, u = r[0].value, r[0].unit
    h.check(sorted(U.parts(u)) == sorted(merge(ps)), 'the unit stays')
    h.check(h.q(r) == q, 'the value stays')
    h.cover('done')


def h_array(h):
    """Every element of an array result is simplified by itself."""
    c = h.calc('Computing')
    h.gcd_fork(0)
    c.unit_simplification_set(True)
    p1, p2 = h.choose('u1', h.p('units')), h.choose('u2', h.p('units'))
    q = value(h, c)
    r, u = tryevu(h, c, '[%s, %s, va]' % (build(p1), build(p2)))
    h.check(not failed(r) and len(r) == 3, 'three elements')
    for x, ps in ((r[0], p1), (r[1], p2)):
        dims, s = U.combine(ps)
        m, d = magnitude(h, x.value, x.unit)
        h.check(d == dims and m == q * h.q(s.numerator, s.denominator), 'the quantity of each element')
    h.check(h.q(r[2].value) == q and r[2].unit is None, 'a plain element')
    h.cover('done')


def h_settings(h):
    """The settings of the simplification choose the unit only."""
    c = h.calc('Computing')
    h.gcd_fork(0)
    c.unit_simplification_set(True)
    n = c.unit_normaliser
    n.simplify_allow_prefixed_units = h.choose('prefixed', [False, True])
    n.simplify_preferred_magnitude = h.choose('magnitude', [0, 1, 3])
    n.simplify_penalty = h.choose('penalty', [1, 1000])
    ps = h.choose('unit', h.p('units'))
    q = value(h, c)
    judge(h, c, build(ps), ps, q, 'result')
    h.cover('done')


S = [[('meters', 1), ('kilometers', 1)], [('kilograms', 1), ('meters', 2), ('seconds', -2)], [('newtons', 1), ('hours', 1), ('kilograms', -1)], [('hours', -1)], [('acres', 1), ('feet', 1)],
     [('knots', 1), ('hours', 1)], [('bytes', 1), ('bits', -1)], [('newtons', 1), ('kilograms', -1), ('nautical miles', 1)]]
HARNESSES = [
    dict(name='zero', fn=h_zero, quick={}, thorough={}, bounds='zero in 69 units', covers=['done']),
    dict(name='extreme', fn=h_extreme, quick={'units': S}, thorough={'units': UNITS}, bounds='powers of ten from -400 to 400 (listed), both signs', covers=['done']),
    dict(name='off', fn=h_off, quick={'lo': -10 ** 6, 'm': 10 ** 6, 'dens': [1]}, thorough={'lo': -10 ** 12, 'm': 10 ** 12, 'dens': [1, 7]}, bounds='69 units, whole numbers up to m', covers=['off', 'to']),
    dict(name='literal', fn=h_literal, quick={'lo': -10 ** 6, 'm': 10 ** 6, 'dens': [1]}, thorough={'lo': -10 ** 12, 'm': 10 ** 12, 'dens': [1, 7]}, bounds='62 units, 4 forms', covers=['done']),
    dict(name='result', fn=h_result, quick={'lo': -10 ** 6, 'm': 10 ** 9, 'dens': [1]}, thorough={'lo': -10 ** 6, 'm': 10 ** 12, 'dens': [1, 10 ** 6, 7]}, bounds='69 units, whole numbers from lo to m over the listed denominators', covers=['done']),
    dict(name='compact', fn=h_compact, quick={'lo': -1000, 'm': 10 ** 6, 'dens': [1, 1000], 'units': S}, thorough={'lo': -10 ** 6, 'm': 10 ** 6, 'dens': [1, 1000], 'units': UNITS}, bounds='8 (69) units', covers=['done']),
    dict(name='array', fn=h_array, quick={'lo': 1, 'm': 1000, 'dens': [1], 'units': S[:4]}, thorough={'lo': -1000, 'm': 1000, 'dens': [1, 7], 'units': S}, bounds='pairs of 4 (8) units', covers=['done']),
    dict(name='settings', fn=h_settings, quick={'lo': 1, 'm': 100, 'dens': [1], 'units': S[:4]}, thorough={'lo': -1000, 'm': 10 ** 6, 'dens': [1, 1000], 'units': S}, bounds='2 x 3 x 2 settings, 4 (8) units', covers=['done']),
]
