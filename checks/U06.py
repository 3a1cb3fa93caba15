"""U06: a displayed unit reads back as the same unit."""
from common import tryevu, failed
import unittable as U
from U01 import REP
LIBS = ['objects.number', 'objects.units']
CALCS = ['Computing']
TEMPS = ['kelvin', 'Celsius', 'Fahrenheit']


def one(h, u, powers, label):
    """u is the unit with exactly these {plural name: power}"""
    h.check(u is not None and len(u.list()) == len(powers), label + ': number of factors')
    for up in u.list():
        n = up.unit.plural()
        h.check(n in powers, label + ': its units')
        h.check(h.q(up.power.num) == powers[n] * h.q(up.power.den), label + ': its powers')


def cased(h, name, text):
    """text with every letter in either case"""
    s = ''
    for i, ch in enumerate(text):
        a, b = ch.lower(), ch.upper()
        s = s + (h.str('%s%d' % (name, i), 1, a + b) if a != b and len(a) == 1 and len(b) == 1 else ch)
    return s


def read(h, c, text):
    c.unit_simplification_set(False)
    c.vars['va'] = (h.number('va', -h.p('m'), h.p('m'), 1)[0], None)
    return tryevu(h, c, 'va ' + text)


def h_name(h):
    """Every name of every unit, each letter in either case."""
    c = h.calc('Computing')
    dim = h.choose('dim', sorted(c.unit_normaliser.units))
    u = h.choose('unit', [x for x in c.unit_normaliser.units[dim]])
    i = h.choose('name', list(range(len(u.names()))))
    h.check(U.info(u.plural()) is not None and U.info(u.plural())[0] == dim, 'a published unit of the dimension')
    t = u.names()[i]
    r, ru = read(h, c, cased(h, 's', t))
    h.check(not failed(r), 'a name is read in any case')
    h.check(h.q(r) == h.q(c.vars['va'][0]), 'the value stays')
    one(h, ru, {u.plural(): 1}, 'name')
    h.cover('read')


CONSTANTS = ['G', 'c', 'e', 'h', 'R', 'phi', 'pi', 'PI']


def h_symbol(h):
    """Every symbol of every unit, each letter in either case: read only in its own case, unless the text is another unit's symbol or name."""
    c = h.calc('Computing')
    dim = h.choose('dim', sorted(c.unit_normaliser.units))
    us = [x for x in c.unit_normaliser.units[dim] if x.symbols()]
    if not us:
        h.cover('none')
        return
    u = h.choose('unit', us)
    i = h.choose('symbol', list(range(len(u.symbols()))))
    sym = u.symbols()[i]
    t = cased(h, 's', sym)
    r, ru = read(h, c, t)
    # who owns this text
    owner = None
    for other in c.unit_normaliser.list_units():
        if any(len(n) == len(sym) and t.lower() == n.lower() for n in other.names()):
            owner = other
    if owner is None:
        for other in c.unit_normaliser.list_units():
            if any(len(s) == len(sym) and t == s for s in other.symbols()):
                owner = other
    if t == 'as':
        h.cover('as')                                             # see h_as
        return
    if t == sym:
        h.check(owner is not None and owner.plural() == u.plural(), 'the symbol belongs to one unit')
    if owner is not None and hasattr(owner, 'dimension'):
        h.check(not failed(r), 'a symbol is read in its own case')
        h.check(h.q(r) == h.q(c.vars['va'][0]), 'the value stays')
        one(h, ru, {owner.plural(): 1}, 'symbol')
        h.cover('read')
    elif any(t == k for k in CONSTANTS):
        h.cover('constant')
    elif owner is None:
        h.check(failed(r) or ru is None, 'a symbol is not read in another case')
        h.cover('refused')


# which unit a name shared by several systems means, by the published order of preference
SHARED = {'ton': 'short tons', 'tons': 'short tons', 'fluid ounces': 'US fluid ounces', 'fluid ounce': 'US fluid ounces', 'pints': 'US pints', 'pint': 'US pints',
          'quarts': 'US quarts', 'quart': 'US quarts', 'gallons': 'US gallons', 'gallon': 'US gallons'}


def h_as(h):
    """The symbol of attoseconds is read as the unit, and not as the operator with the same letters."""
    c = h.calc('Computing')
    k = h.choose('form', ['as', 'as^2', 'as/m', 'm as'])
    r, ru = read(h, c, k)
    h.check(not failed(r), 'the symbol as is read as attoseconds')
    h.check(h.q(r) == h.q(c.vars['va'][0]), 'the value stays')
    one(h, ru, {'as': {'attoseconds': 1}, 'as^2': {'attoseconds': 2}, 'as/m': {'attoseconds': 1, 'meters': -1}, 'm as': {'meters': 1, 'attoseconds': 1}}[k], 'as')
    h.cover('read')


def known(v):
    return 'as' if v['harness'] == 'as' and v['label'] == 'the symbol as is read as attoseconds' else None


def h_shared(h):
    """Names shared by several systems mean the unit of the preferred system."""
    c = h.calc('Computing')
    t = h.choose('name', sorted(SHARED))
    r, ru = read(h, c, cased(h, 's', t))
    h.check(not failed(r), 'read in any case')
    h.check(h.q(r) == h.q(c.vars['va'][0]), 'the value stays')
    one(h, ru, {SHARED[t]: 1}, 'shared')
    h.cover('read')


def made(h, c, ps):
    """the calculator's unit object with the given [(plural name, power)]"""
    L = h.lib('objects.units')
    return L.UnitPowerList([L.UnitPower(c.unit_normaliser.get_unit(n), h.lib('objects.number').Number(p)) for n, p in ps])


def texts(h, u):
    k = h.choose('form', ['plural', 'singular', 'negative', 'symbol', 'of'])
    if k == 'plural':
        return u.plural()
    if k == 'singular':
        return u.singular()
    if k == 'negative':
        return u.plural(True)
    if k == 'of':
        v = h.lib('objects.number').Number(h.int('v', -9, 9), 1)
        return u.get_name(v)
    if not u.has_symbols():
        return None
    return u.symbol()


def back(h, c, names, label, lo, hi):
    h.gcd_fork(0)
    ps = []
    for i, n in enumerate(names):
        p = h.int('p%d' % i, lo, hi)
        h.assume(p != 0)
        ps.append((n, p))
    u = made(h, c, ps)
    t = texts(h, u)
    if t is None or t.startswith('as') and t[2:3] in ('', '^'):   # see h_as
        h.cover('no symbol')
        return
    r, ru = read(h, c, t)
    h.check(not failed(r), label + ': read back')
    h.check(h.q(r) == h.q(c.vars['va'][0]), label + ': the value stays')
    one(h, ru, dict(ps), label)
    h.cover('read')


def h_power(h):
    """Every unit with a whole power."""
    c = h.calc('Computing')
    dim = h.choose('dim', sorted(c.unit_normaliser.units))
    u = h.choose('unit', [x.plural() for x in c.unit_normaliser.units[dim]])
    back(h, c, [u], 'power', h.p('lo'), h.p('hi'))


PAIR = ['meters', 'hours', 'kilograms', 'bytes', 'Celsius', 'US gallons', 'pound-force per square inch', 'astronomical units', 'inches', 'amperes', 'lightseconds', 'knots']


def h_pair(h):
    """Two units, with all whole powers."""
    c = h.calc('Computing')
    a = h.choose('a', PAIR)
    b = h.choose('b', [x for x in PAIR if x != a])
    back(h, c, [a, b], 'pair', -h.p('k'), h.p('k'))


TRIPLE = [['kilograms', 'meters', 'seconds'], ['seconds', 'meters', 'kilograms'], ['miles', 'hours', 'US gallons'], ['volts', 'amperes', 'hours'], ['inches', 'feet', 'pound-force per square inch'],
          ['stone', 'acres', 'bytes'], ['moles', 'liters', 'kelvin'], ['gigabytes', 'minutes', 'degrees']]


def h_triple(h):
    """Three units, with all whole powers."""
    c = h.calc('Computing')
    back(h, c, h.choose('units', TRIPLE), 'triple', -h.p('k'), h.p('k'))


def h_quad(h):
    """Four units, powers 1, -1, 2 and -2."""
    c = h.calc('Computing')
    back(h, c, h.choose('units', [['kilograms', 'meters', 'seconds', 'amperes'], ['bytes', 'hours', 'feet', 'moles']]), 'quad', -h.p('k'), h.p('k'))


def h_display(h):
    """A result shown as number and unit name evaluates to the same quantity."""
    c = h.calc('Computing')
    c.unit_simplification_set(False)
    n = h.int('n', -h.p('m'), h.p('m'))
    d = h.choose('d', [1, 4])
    c.vars['va'] = (h.lib('objects.number').Number(n, d), None)
    t = h.choose('text', ['va meters', 'va kilometers/hour', 'va seconds^-1', 'va meters * 2 meters', 'va kg m^2/s^2', '10 / (va meters)', 'va Celsius', 'va inches^3/(hours days)',
                          'va bytes / 4 seconds', 'va US cups', 'va astronomical units^-2 moles'])
    r, u = tryevu(h, c, t)
    if failed(r):
        h.check(t.startswith('10') and n == 0, 'shown unless dividing by zero')
        return
    shown = r.to_string(c)
    r2, u2 = tryevu(h, c, shown + ' ' + u.get_name(r)) if not t.startswith('10') else (r, u)
    h.check(not failed(r2), 'what is shown evaluates')
    h.check(h.q(r2) == h.q(r), 'to the same number')
    h.check(u2 is not None and sorted(U.parts(u2)) == sorted(U.parts(u)), 'and the same unit')
    h.cover('read')


HARNESSES = [
    dict(name='name', fn=h_name, quick={'m': 1000}, thorough={'m': 10 ** 9}, bounds='every name of every unit of the catalogue, each letter in either case', covers=['read']),
    dict(name='symbol', fn=h_symbol, quick={'m': 1000}, thorough={'m': 10 ** 9}, bounds='every symbol of every unit, each letter in either case', covers=['read', 'refused']),
    dict(name='shared', fn=h_shared, quick={'m': 1000}, thorough={'m': 10 ** 9}, bounds='the names shared by several systems', covers=['read']),
    dict(name='power', fn=h_power, quick={'m': 1000, 'lo': -2, 'hi': 2}, thorough={'m': 10 ** 6, 'lo': -12, 'hi': 12}, bounds='every unit, whole powers lo to hi, shown in 5 forms', covers=['read']),
    dict(name='pair', fn=h_pair, quick={'m': 1000, 'k': 2}, thorough={'m': 1000, 'k': 4}, bounds='ordered pairs of 12 units, whole powers up to k, shown in 5 forms', covers=['read']),
    dict(name='triple', fn=h_triple, quick={'m': 1000, 'k': 2}, thorough={'m': 1000, 'k': 3}, bounds='8 triples of units, whole powers up to k, shown in 5 forms', covers=['read']),
    dict(name='quad', fn=h_quad, quick={'m': 1000, 'k': 1}, thorough={'m': 1000, 'k': 2}, bounds='2 lists of 4 units, whole powers up to k, shown in 5 forms', covers=['read']),
    dict(name='display', fn=h_display, quick={'m': 99}, thorough={'m': 99999}, bounds='11 unit-valued texts, n/d up to m', covers=['read']),
    dict(name='as', fn=h_as, quick={'m': 1000}, thorough={'m': 10 ** 9}, bounds='4 unit texts with the symbol as', covers=[]),
]
