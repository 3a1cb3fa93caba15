"""U01: converting a value between units preserves the quantity."""
from common import tryevu, failed
import unittable as U
LIBS = ['objects.number', 'objects.units']
CALCS = ['Computing']

# one unit of every dimension
REP = ['meters', 'seconds', 'grams', 'amperes', 'moles', 'candelas', 'steradians', 'radians', 'bytes', 'grays', 'gees', 'acres', 'liters', 'farads', 'siemens',
       'volts', 'coulombs', 'joules', 'sieverts', 'newtons', 'hertz', 'lux', 'henries', 'lumens', 'webers', 'teslas', 'watts', 'pascals', 'becquerels', 'ohms', 'knots', 'katals']


def converts(h, c, text, q, a, b, label):
    """text converts the quantity q in unit a (parts) to unit b (parts)"""
    h.gcd_fork(0)
    r, u = tryevu(h, c, text)
    da, sa = U.combine(a)
    db, sb = U.combine(b)
    if da != db:
        h.check(failed(r), label + ': different dimensions are an error')
        h.cover('error')
        return
    h.check(not failed(r), label + ': defined')
    h.check(sorted(U.parts(u)) == sorted(b), label + ': the unit asked for')
    f = sa / sb
    h.check(h.q(r) == q * h.q(f.numerator, f.denominator), label + ': the ratio of the scales')
    h.cover('converted')


def h_unit(h):
    """Every unit, to and from a base unit of its dimension."""
    c = h.calc('Computing')
    dim = h.choose('dim', h.p('dims', sorted(d for d in c.unit_normaliser.units if d != 'temperature')))
    us = [u.plural() for u in c.unit_normaliser.units[dim]]
    a = h.choose('a', us)
    ref = [u for u in us if U.info(u) is not None and U.UNITS.get(u, (0, 0))[1] == 1] or us
    h.check(U.info(a) is not None and U.info(a)[0] == dim, 'a published unit of the dimension')
    c.vars['va'], q = h.number('va', -h.p('m'), h.p('m'), 1)
    c.vars['va'] = (c.vars['va'], None)
    if h.choose('dir', [0, 1]):
        converts(h, c, 'va %s to %s' % (a, ref[0]), q, [(a, 1)], [(ref[0], 1)], 'to the base unit')
    else:
        converts(h, c, 'va %s to %s' % (ref[0], a), q, [(ref[0], 1)], [(a, 1)], 'from the base unit')


PAIRS = [('inches', 'feet'), ('miles', 'nautical miles'), ('yards', 'kilometers'), ('lightyears', 'astronomical units'), ('weeks', 'days'), ('months', 'years'),
         ('hours', 'milliseconds'), ('pounds', 'ounces'), ('stone', 'kilograms'), ('grains', 'tonnes'), ('kibibytes', 'kilobits'), ('bytes', 'bits'), ('UK pints', 'US gallons'),
         ('acres', 'hectares'), ('degrees', 'radians'), ('atmospheres', 'kilopascals'), ('US cups', 'milliliters'), ('sieverts', 'grays'), ('hertz', 'becquerels')]


def h_pair(h):
    """Pairs of units of one dimension, fractions, there and back and via a third unit."""
    c = h.calc('Computing')
    a, b = h.choose('pair', h.p('pairs', PAIRS))
    d = h.choose('d', h.p('dens'))
    n = h.int('n', -h.p('m'), h.p('m'))
    c.vars['va'] = (h.lib('objects.number').Number(n, d), None)
    q = h.q(n, d)
    k = h.choose('k', ['there', 'back', 'third'])
    if k == 'there':
        converts(h, c, 'va %s to %s' % (a, b), q, [(a, 1)], [(b, 1)], 'there')
    elif k == 'back':
        converts(h, c, '(va %s to %s) to %s' % (a, b, a), q, [(a, 1)], [(a, 1)], 'there and back')
    else:
        third = {'distance': 'centimeters', 'time': 'minutes', 'mass': 'milligrams', 'data': 'mebibits'}.get(U.info(a)[0])
        if third is None:
            third = b
        converts(h, c, 'vx = va %s to %s\nvx to %s' % (a, third, b), q, [(a, 1)], [(b, 1)], 'via a third unit')


COMPOUND = [
    [('kilometers', 1), ('hours', -1)], [('meters', 1), ('seconds', -1)], [('knots', 1)], [('miles', 1), ('hours', -1)],
    [('kilograms', 1), ('meters', 2), ('seconds', -2)], [('joules', 1)], [('newtons', 1), ('meters', 1)], [('kilowatts', 1), ('hours', 1)], [('grams', 1), ('grays', 1)],
    [('meters', 3)], [('liters', 1)], [('acres', 1), ('feet', 1)], [('inches', 2), ('feet', 1)],
    [('seconds', -1)], [('hertz', 1)], [('minutes', -1)], [('meters', 1), ('hours', -1), ('meters', -1)],
    [('bytes', 1), ('seconds', -1)], [('bits', 1), ('minutes', -1)], [('meters', -2)], [('inches', -2)], [('volts', 1), ('ohms', -1)], [('amperes', 1)],
    [('meters', 2), ('seconds', -2)], [('sieverts', 1)], [('kilometers', 1), ('hours', -1), ('seconds', -1)], [('gees', 1)], [('liters', 1), ('acres', -1)], [('meters', 1)], [('seconds', 1)], [('meters', 2)],
    [('kilometers', 4)], [('meters', 4)], [('minutes', -5)], [('seconds', -5)],
]


def ptext(ps):
    return ' '.join(n if p == 1 else '%s^%d' % (n, p) for n, p in ps)


def merge(ps):
    d = {}
    for n, p in ps:
        d[n] = d.get(n, 0) + p
    return [(n, p) for n, p in d.items() if p]


def h_compound(h):
    """Compound units: all ordered pairs of a list; an error exactly where the dimensions differ."""
    c = h.calc('Computing')
    a = h.choose('a', COMPOUND)
    b = h.choose('b', COMPOUND)
    c.vars['va'], q = h.number('va', -h.p('m'), h.p('m'), 1)
    c.vars['va'] = (c.vars['va'], None)
    converts(h, c, 'va %s to %s' % (ptext(a), ptext(b)), q, merge(a), merge(b), 'compound')


def h_differ(h):
    """Different dimensions do not convert, whichever units of them."""
    c = h.calc('Computing')
    a = h.choose('a', REP)
    b = h.choose('b', REP)
    c.vars['va'], q = h.number('va', -h.p('m'), h.p('m'), 1)
    c.vars['va'] = (c.vars['va'], None)
    converts(h, c, 'va %s to %s' % (a, b), q, [(a, 1)], [(b, 1)], 'simple')


def h_none(h):
    """A plain number has no unit to convert from, and something other than a unit is no target."""
    c = h.calc('Computing')
    c.vars['va'] = (h.number('va', -h.p('m'), h.p('m'), 1)[0], None)
    t = h.choose('text', ['va to meters', 'va meters to 5', 'va meters to va', "'5' to meters", 'va meters to (3 inches)', '[va, va meters] to inches'])
    r, u = tryevu(h, c, t)
    if t.startswith('['):
        h.check(not failed(r) and isinstance(r[0].value, Exception) and not isinstance(r[1].value, Exception), 'an error for the plain number only')
        f = U.info('meters')[1] / U.info('inches')[1]
        h.check(h.q(r[1].value) == h.q(c.vars['va'][0]) * h.q(f.numerator, f.denominator), 'the converted element')
    else:
        h.check(failed(r), 'not a conversion')
    h.cover('done')


HARNESSES = [
    dict(name='unit', fn=h_unit, quick={'m': 10 ** 6}, thorough={'m': 10 ** 12}, bounds='every unit of every dimension but temperature, to and from its base unit; whole numbers up to m', covers=['converted']),
    dict(name='pair', fn=h_pair, quick={'m': 10 ** 6, 'dens': [1, 7]}, thorough={'m': 10 ** 12, 'dens': [1, 2, 3, 7, 10, 60, 127]}, bounds='listed pairs, fractions n/d', covers=['converted']),
    dict(name='compound', fn=h_compound, quick={'m': 10 ** 6}, thorough={'m': 10 ** 12}, bounds='all ordered pairs of 35 compound units, powers up to 5', covers=['converted', 'error']),
    dict(name='differ', fn=h_differ, quick={'m': 10 ** 6}, thorough={'m': 10 ** 12}, bounds='all ordered pairs of one unit of each of 32 dimensions', covers=['converted', 'error']),
    dict(name='none', fn=h_none, quick={'m': 1000}, thorough={'m': 10 ** 6}, bounds='6 texts', covers=['done']),
]
