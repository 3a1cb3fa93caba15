"""C01: behaviour does not depend on the order features are installed in."""
from common import tryevu, val, equal
import anytext as T
LIBS = ['objects.number', 'objects.items', 'objects.exceptions', 'objects.operators', 'modularcalculator']
ORDERS = ['Computing@0@-1', 'Computing@7@5', 'Computing@31@-11', 'Computing@50@29']
CALCS = ['', 'Computing'] + ORDERS
# as published: operators from the tightest level to the loosest, parsers from the first tried to the last
LEVELS = [['^'], ['not', '~'], ['=~', '!~'], ['UNIT_MULTIPLY', 'UNIT_DIVIDE'], ['UNIT_ASSIGNMENT'], ['IMPLICIT_MULTIPLY'], ['*', '/', '%', '*$', '\\'], ['+', '-', '+$', '+%', '-%'], ['<<', '>>'],
          ['<', '>', '<=', '>=', '<$', '>$', '<=$', '>=$', '<~', '>~', '<=~', '>=~'], ['==', '!=', '==$', '!=$', '==~', '!=~'], ['&'], ['|', '^^'], ['and', 'or', 'xor'], ['then'], ['to', 'as'],
          ['=', '++', '--', '+=', '-=', '*=', '/=', '^=', '%=', '\\=', '||=']]
RTL = LEVELS[-1] + ['not', '~', '^']
SYMBOLS = [s for level in LEVELS for s in level]
PARSERS = ['terminator', 'space', 'comment', 'boolean', 'number_bin', 'number_oct', 'number_hex', 'number_arbbase', 'numberexp', 'percentagenumber', 'number', 'operator', 'string', 'function_pointer', 'function',
           'function_param', 'function_end', 'inner_expr', 'inner_expr_end', 'inline_function', 'inline_function_end', 'constant', 'units', 'unitsystems', 'numericalrepresentation', 'array', 'array_range', 'array_step',
           'array_param', 'array_end', 'var']


def level(s):
    for i, l in enumerate(LEVELS):
        if s in l:
            return i


def ranked(h, c, syms):
    got = [sorted(p) for p in c.ops]
    want = [sorted(s for s in l if s in syms) for l in LEVELS]
    h.check(got == [w for w in want if w], 'operators rank as published')


def parsed(h, c, names):
    h.check([p['name'] for p in c.parsers] == [p for p in PARSERS if p in names], 'parsers are tried as published')


def install(h, names, at_once=True):
    """A calculator with the given features; whatever went wrong otherwise."""
    c = h.calc('')
    if at_once:
        c.install_features(list(names))
    else:
        for n in names:
            c.install_features([n])
    return c


def sig(c):
    """What there is in a calculator, apart from the order of dictionaries that are looked up by name."""
    d = {'parsers': [p['name'] for p in c.parsers], 'ops': [sorted((k, v.rtl, len(v.linputs), len(v.rinputs)) for k, v in p.items()) for p in c.ops], 'funcs': sorted(getattr(c, 'funcs', {})),
         'installed': sorted(c.installed_features), 'constants': sorted(getattr(c, 'constants', {})), 'validators': sorted(c.validators), 'symbols': sorted(c.ops_list), 'types': sorted(c.number_types),
         'finalizers': len(c.finalizers), 'options': str(sorted(c.feature_options)), 'special': (c.multiply_op, c.divide_op, c.implicit_multiply_op, c.unit_assignment_op, c.unit_multiply_op, c.unit_divide_op)}
    un = c.unit_normaliser
    if un is not None:
        d['units'] = {k: [u.plural() for u in v] for k, v in un.units.items()}
        d['names'] = {k: v.names()[0] for k, v in un.unitnames.items()}
        d['signs'] = {k: v.names()[0] for k, v in un.unitsymbols.items()}
        d['systems'] = (list(un.systems), list(un.systems_preference))
        d['prefixes'] = [p[0] for p in un.prefixes]
        d['dimensions'] = sorted(un.dimensions)

        d['shared'] = sorted(u.names()[0] for u in un.ambiguous_units)
        d['several'] = {k: [str(x) for x in v] for k, v in un.multiunits.items()}
    return d


def same(h, a, b, label):
    for k in sorted(set(a) | set(b)):
        h.check(k in a and k in b and a[k] == b[k], label + ': ' + k)


def closure(c, names):
    out, todo = set(), list(names)
    while todo:
        n = todo.pop()
        if n not in out:
            out.add(n)
            f = c.feature_list[n]
            todo += list(f.dependencies())
            if hasattr(f, 'subfeatures'):
                todo += list(f.subfeatures())
    return out


def together(h, names):
    a = install(h, names)
    h.check(closure(a, names) == a.installed_features, 'everything needed is installed, and nothing else')
    first = sig(a)
    parsed(h, a, [p['name'] for p in a.parsers])
    ranked(h, a, list(a.ops_list))
    return a, first


def h_pair(h):
    """Any two features, in either order, and one of them twice."""
    c = h.calc('')
    fs = sorted(c.feature_list)
    i = h.choose('a', list(range(len(fs))))
    j = h.choose('b', [x for x in range(len(fs)) if x > i and (x - i) % h.p('every') == 0] or [i])
    a, first = together(h, [fs[i], fs[j]])
    b = install(h, [fs[j], fs[i]])
    same(h, first, sig(b), 'other order')
    b.install_features([fs[i]])
    same(h, first, sig(b), 'installed again')
    h.cover('done')


SOME = ['units.basicunitprefixes', 'units.advancedunitprefixes', 'units.unitsymbols', 'units.systems', 'unitdefinitions.distance', 'unitdefinitions.data', 'unitdefinitions.volume', 'units.unitconstants', 'units.unitfunctions',
        'unitdefinitions.allunitdefinitions', 'numerical.numericalrepresentation', 'numerical.hexadecimalnumbers', 'numerical.percentagenumbers', 'arrays.arrays', 'structure.functions', 'dates.dateoperators', 'state.assignment', 'boolean.booleans',
        'strings.stringcomparison', 'numerical.basicarithmetic', 'numerical.bitwise']


def h_three(h):
    """Any three of a list of features that work together, in any order."""
    c = h.calc('')
    fs = [f for f in h.p('some', SOME) if f in c.feature_list]
    n = len(fs)
    i = h.choose('a', list(range(n - 2)))
    j = h.choose('b', list(range(i + 1, n - 1)))
    k = h.choose('c', list(range(j + 1, n)))
    a, first = together(h, [fs[i], fs[j], fs[k]])
    o = h.choose('order', [(0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)] if h.p('all') else [(2, 1, 0), (1, 2, 0)])
    b = install(h, [[fs[i], fs[j], fs[k]][x] for x in o])
    same(h, first, sig(b), 'other order')
    h.cover('done')


def op(h, s):
    O = h.lib('objects.operators')
    o = O.OperatorDefinition('Test', s, 'test', h_op, 1, 1, None)
    return o


def h_op(self, vals, units, refs, flags):
    return None


def h_ops(h):
    """A few operators, added in any order."""
    c = h.calc('')
    n = h.p('n')
    syms = []
    for i in range(n):
        syms.append(h.choose('s%d' % i, h.p('symbols', SYMBOLS)))
    for s in syms:
        c.add_op(op(h, s), {'rtl': s in RTL})
    ranked(h, c, syms)
    h.cover('done')


def strided(h, xs):
    """All of xs, in an order given by a start and a step."""
    n = len(xs)
    start = h.choose('start', list(range(0, n, h.p('skip'))))
    step = h.choose('step', [s for s in range(1, n) if all(s % p or n % p for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31)) and s % h.p('skip') < 2])
    return [xs[(start + step * i) % n] for i in range(n)]


def h_allops(h):
    """All operators, in many orders."""
    c = h.calc('')
    for s in strided(h, SYMBOLS):
        c.add_op(op(h, s), {'rtl': s in RTL})
    ranked(h, c, SYMBOLS)
    h.cover('done')


def h_parsers(h):
    """A few parsers, added in any order."""
    c = h.calc('')
    names = [h.choose('n%d' % i, PARSERS) for i in range(h.p('n'))]
    for x in names:
        c.add_parser(x, h_op)
    parsed(h, c, names)
    h.cover('done')


def h_allparsers(h):
    """All parsers, in many orders."""
    c = h.calc('')
    for x in strided(h, PARSERS):
        c.add_parser(x, h_op)
    parsed(h, c, PARSERS)
    h.cover('done')


TEXTS = ['va + 2 * va', 'va m + 3 cm', 'va m * 2 kg / (4 s^2)', "'va' +$ va", 'va as hex', '0b11 & va', "'0x1f' + va", "'50%' * va", "'1e2' + va", "'true' and va == 1", 'max(1, va, vl)', '[1..va + 3]', '@ff(va)', 'va then 1 else 2', 'va == 1 then "a" else 2',
         "va == 2 then 'x' else va", 'va hours to minutes', 'va Celsius to Fahrenheit', '50% + va', "('2020-02-01' + va days)", 'va / 4', 'va joules / 2 coulombs', 'va pints to liters', 'va << 2', 'vs =~ "1"', "vs ==$ 'a'", 'vx = va\nvx += 1\nvx', 'abs(va) km / hour', 'va ^ 2', 'not va == 1',
         'va atmospheres', 'va kWh', 'va bytes * 8', 'sum(vl)', 'pi * va', 'c * va', 'dateadd("2020-01-01", va days)', 'va -% 50', 'va ||= 2', 'vn ||= va', 'compact([va, null])']


def h_text(h):
    """A preset installed in another order calculates the same."""
    a = h.calc('Computing')
    b = h.calc(h.choose('order', h.p('orders', ORDERS)))
    h.float_opaque(True)
    h.gcd_fork(0)
    text = h.choose('text', h.p('texts', TEXTS))
    T.setup(h, a, text)
    for k in ('va', 'vs', 'vl', 'vm'):
        b.vars[k] = a.vars[k]
    tryevu(h, b, 'ff = {PARAM1 * 2}')
    ra, ua = tryevu(h, a, text)
    rb, ub = tryevu(h, b, text)
    equal(h, val(h, ra, ua), val(h, rb, ub), 'the same result')
    same(h, sig(a), sig(b), 'the same preset')
    h.cover('done')


HARNESSES = [
    dict(name='ops', fn=h_ops, quick={'n': 2}, thorough={'n': 3}, bounds='all sequences of n of the 55 operators', covers=['done']),
    dict(name='allops', fn=h_allops, quick={'skip': 2}, thorough={'skip': 1}, bounds='all operators, orders by start and step', covers=['done']),
    dict(name='parsers', fn=h_parsers, quick={'n': 2}, thorough={'n': 3}, bounds='all sequences of n of the 31 parsers', covers=['done']),
    dict(name='allparsers', fn=h_allparsers, quick={'skip': 1}, thorough={'skip': 1}, bounds='all parsers, orders by start and step', covers=['done']),
    dict(name='pair', fn=h_pair, quick={'every': 1}, thorough={'every': 1}, bounds='pairs of features in both orders', covers=['done']),
    dict(name='three', fn=h_three, quick={'all': False, 'some': SOME}, thorough={'all': True, 'some': SOME}, bounds='triples of listed features in several orders', covers=['done']),
    dict(name='text', fn=h_text, quick={'orders': ORDERS}, thorough={'orders': ORDERS}, bounds='41 texts, values within -1..2, calculators installed in listed orders', covers=['done']),
]
