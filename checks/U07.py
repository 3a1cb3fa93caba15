"""U07: a formatted quantity denotes the quantity."""
from common import tryevu, failed
from fractions import Fraction as F
import unittable as U
LIBS = ['objects.number', 'objects.units']
CALCS = ['Computing']
DIG = '0123456789'
ZERO = {'kelvin': F(0), 'Celsius': F('273.15'), 'Fahrenheit': F('459.67') * F(5, 9)}


def decimal(h, s):
    """The value of a decimal text and its number of places."""
    neg = h.is_true(s[0] == '-')
    if neg:
        s = s[1:]
    v, places, point = h.q(0), 0, False
    for ch in s:
        if h.is_true(ch == '.'):
            h.check(not point, 'a number has one point')
            point = True
            continue
        v = v * 10 + h.digit(ch, DIG)
        if point:
            places += 1
    h.check(not point or places > 0, 'digits follow the point')
    return (-v if neg else v) / 10 ** places


def unit_of(h, c, name):
    """The unit with this singular or plural name."""
    for us in c.unit_normaliser.units.values():
        for u in us:
            if name in u.names()[:2]:
                return u
    h.fail('a part has a unit')


def h_format(h):
    c = h.calc('Computing')
    h.opaque(False)
    h.gcd_fork(-1)
    c.number_prec_set(h.p('places', 2))
    unit, systems = h.choose('unit', h.p('units'))
    system = h.choose('system', systems)
    n = h.int('n', h.p('lo', 1), h.p('m'))
    d = h.choose('d', h.p('d'))
    N = h.lib('objects.number').Number
    c.unit_simplification_set(False)
    h.assume(n != 0)
    c.vars['va'] = (N(n, d), None)
    r, u = tryevu(h, c, 'format(va %s%s)' % (unit, ', ' + system if system else ''))
    h.check(not failed(r), 'a quantity can be formatted')
    h.check(isinstance(r, str) and u is None, 'as a text')
    h.observe(r)
    dim, scale = U.info(unit)
    want = h.q(n, d) * scale
    temp = dim == 'temperature'
    if temp:
        want = (h.q(n, d) + ZERO[unit] / scale if unit in ZERO else h.q(n, d)) * scale
    used = None
    total, last = h.q(0), None
    larger, left = [], want
    parts = r.split(', ')
    for i, part in enumerate(parts):
        k = 0
        while k < len(part) and not h.is_true(part[k] == ' '):
            k += 1
        v = decimal(h, part[:k])
        name = part[k + 1:]
        pu = unit_of(h, c, name)
        pd, ps = U.info(pu.plural())
        h.check(pd == dim, 'the parts are of the dimension of the quantity')
        used = set(pu.systems) if used is None else used & set(pu.systems)
        h.check(v != 0 or temp or i == len(parts) - 1, 'only the last part can be rounded to zero')
        if pu.names()[0] != pu.names()[1]:
            h.check(name == pu.names()[0] or v == 1, 'the singular is for one only')
            h.check(name == pu.names()[1] or v != 1 or i == len(parts) - 1, 'and for every one')
        h.check(last is None or ps < last, 'the units get smaller')
        if not temp:
            larger.append((left, ps, last))
            left = left - v * ps
        if i < len(parts) - 1:
            h.check(v > 0, 'only the last part can be negative')
        if temp and i == 0:
            total = (v + ZERO[pu.plural()] / ps if pu.plural() in ZERO else v) * ps
        else:
            h.check(i == 0 or v > 0 or v == 0 and i == len(parts) - 1, 'no later part is negative')
            total = total + v * ps
        last = ps
    if system:
        h.check(system in used, 'all parts are of the system asked for')
    h.check(len(used) > 0, 'all parts are of one system')
    if not temp:
        fits = []
        for sys in ([system] if system else sorted(used)):
            scales = [U.info(x.plural())[1] for x in c.unit_normaliser.units[dim] if x.use and sys in x.systems and x.nameprefix is None]
            ok = True
            for rest, ps, before in larger:
                between = [x for x in scales if ps < x and (before is None or x < before)] + ([before] if before is not None else [])
                ok = ok and (not between or h.is_true(rest < min(between)))
            fits.append(ok)
        h.check(any(fits), 'no larger unit fits into what an amount stands for')
    diff = total - want
    h.check(abs(diff) * 2 <= last * F(1, 10 ** h.p('places', 2)), 'the parts add up to the quantity')
    h.cover('%s' % min(len(parts), 3))


HARNESSES = [
    dict(name='time', fn=h_format, quick=dict(units=[('seconds', ['', 'gregorian'])], m=20000, d=[1], places=30),
         thorough=dict(units=[('seconds', ['', 'gregorian']), ('hours', ['']), ('minutes', [''])], m=10 ** 5, d=[1, 4]),
         bounds='n/d of listed units of time, n up to m', covers=['1', '2', '3']),
    dict(name='calendar', fn=h_format, quick=dict(units=[('days', ['']), ('weeks', [''])], m=70, d=[1]), thorough=dict(units=[('days', ['']), ('weeks', ['']), ('months', ['']), ('years', [''])], m=500, d=[1, 4]),
         bounds='n/d of listed longer units of time, n up to m', covers=['1', '3']),
    dict(name='length', fn=h_format, quick=dict(units=[('inches', ['', 'uk', 'si']), ('meters', ['', 'us'])], m=400, d=[1, 2]),
         thorough=dict(units=[('inches', ['', 'us', 'uk', 'si']), ('feet', ['', 'si']), ('meters', ['', 'us', 'nautical']), ('kilometers', ['', 'us']), ('miles', ['', 'asu']), ('nautical miles', ['', 'si'])], m=2000, d=[1, 8, 3]),
         bounds='n/d of listed units of length, n up to m', covers=['1', '2']),
    dict(name='others', fn=h_format, quick=dict(units=[('ounces', ['', 'si']), ('grams', ['', 'uk']), ('bits', ['', 'iec']), ('US fluid ounces', ['']), ('liters', ['uk'])], m=100, d=[1, 4]),
         thorough=dict(units=[('ounces', ['', 'si', 'us']), ('grams', ['', 'uk']), ('kilograms', ['', 'us']), ('bits', ['', 'iec']), ('bytes', ['', 'iec']), ('US fluid ounces', ['', 'uk']), ('liters', ['', 'us', 'uk']),
                              ('newtons', ['']), ('kilowatts', ['']), ('knots', ['']), ('hectares', ['']), ('acres', ['', 'si'])], m=400, d=[1, 4]),
         bounds='n/d of listed units of mass, data, volume and others, n up to m', covers=['1', '2']),
    dict(name='negative', fn=h_format, quick=dict(units=[('seconds', ['']), ('feet', ['', 'si']), ('Celsius', ['', 'us'])], lo=-90, m=-1, d=[1, 4]), thorough=dict(units=[('seconds', ['']), ('hours', ['']), ('feet', ['', 'si']), ('grams', ['']), ('Celsius', ['', 'us'])], lo=-4000, m=-1, d=[1, 4]),
         bounds='negative n/d of listed units', covers=['1']),
    dict(name='temperature', fn=h_format, quick=dict(units=[('Celsius', ['', 'us']), ('kelvin', ['', 'uk']), ('Fahrenheit', ['', 'si'])], lo=-50, m=400, d=[1, 4]), thorough=dict(units=[('Celsius', ['', 'us']), ('kelvin', ['', 'uk']), ('Fahrenheit', ['', 'si'])], lo=-500, m=4000, d=[1, 4, 3]),
         bounds='n/d Celsius, Fahrenheit, kelvin', covers=['1', '2']),
]
