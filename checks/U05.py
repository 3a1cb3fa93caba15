"""U05: temperatures convert absolutely or relatively as appropriate."""
from common import tryevu, failed
import unittable as U
from U03 import magnitude
LIBS = ['objects.number', 'objects.units']
CALCS = ['Computing']

# absolute temperature in kelvin: K = (x + offset) * scale
T = {'kelvin': ((0, 1), (1, 1)), 'Celsius': ((27315, 100), (1, 1)), 'Fahrenheit': ((45967, 100), (5, 9))}
NAMES = ['kelvin', 'Celsius', 'Fahrenheit']
WRITE = {'kelvin': ['kelvin', 'K', 'Kelvin'], 'Celsius': ['Celsius', '°C', 'deg C', 'celsius'], 'Fahrenheit': ['Fahrenheit', '°F', 'deg F']}


def kelvin(h, q, u):
    (on, od), (sn, sd) = T[u]
    return (q + h.q(on, od)) * h.q(sn, sd)


def rel(h, u):
    return h.q(*T[u][1])


def var(h, c, name, nonzero=False):
    d = h.choose(name + '_d', h.p('dens'))
    n = h.int(name, -h.p('m'), h.p('m'))
    if nonzero:
        h.assume(n != 0)
    c.vars[name] = (h.lib('objects.number').Number(n, d), None)
    return h.q(n, d)


def isunit(h, u, names):
    """The unit is the single named one"""
    h.check(u is not None and U.parts(u) == names, 'the unit')


def h_to(h):
    """"to" maps absolute temperatures, there and back gives the same value."""
    c = h.calc('Computing')
    a, b = h.choose('a', NAMES), h.choose('b', NAMES)
    q = var(h, c, 'va')
    form = h.choose('form', ['to', 'back', 'third', 'array', 'literal'])
    wa = h.choose('wa', WRITE[a] if form == 'to' else WRITE[a][:1])
    wb = h.choose('wb', WRITE[b] if form == 'to' else WRITE[b][:1])
    if form == 'to':
        r, u = tryevu(h, c, 'va %s to %s' % (wa, wb))
    elif form == 'back':
        r, u = tryevu(h, c, '(va %s to %s) to %s' % (wa, wb, wa))
        b = a
    elif form == 'third':
        r, u = tryevu(h, c, 'vx = va %s to kelvin\nvx to Fahrenheit to %s' % (wa, wb))
    elif form == 'literal':
        r, u = tryevu(h, c, '(va * 2) %s to %s' % (wa, wb))
        q = q * h.q(2)
    else:
        r, u = tryevu(h, c, '[va %s, 1 meter] to %s' % (wa, wb))
        h.check(not failed(r) and isinstance(r[1].value, Exception), 'a length is no temperature')
        r, u = r[0].value, r[0].unit
    h.check(not failed(r), 'defined')
    isunit(h, u, [(b, 1)])
    h.check(kelvin(h, h.q(r), b) == kelvin(h, q, a), 'the same temperature')
    h.cover(form)


POINTS = [('0 Celsius to kelvin', (27315, 100)), ('0 Celsius to Fahrenheit', (32, 1)), ('100 Celsius to Fahrenheit', (212, 1)), ('0 kelvin to Celsius', (-27315, 100)), ('0 kelvin to Fahrenheit', (-45967, 100)),
          ('-40 Celsius to Fahrenheit', (-40, 1)), ('-40 Fahrenheit to Celsius', (-40, 1)), ('32 Fahrenheit to kelvin', (27315, 100)), ('300 K to °C', (2685, 100))]


def h_points(h):
    """The fixed points of the scales."""
    c = h.calc('Computing')
    t, w = h.choose('t', POINTS)
    if t.startswith('-'):
        t = '(0 - %s) %s' % tuple(t[1:].split(' ', 1))
    r, u = tryevu(h, c, t)
    h.check(not failed(r) and h.q(r) == h.q(*w), t)
    h.cover('done')


def h_sum(h):
    """Sums and differences treat the operands as temperature differences: only the scale applies, in the unit of the left one."""
    c = h.calc('Computing')
    h.gcd_fork(0)
    a, b = h.choose('a', NAMES), h.choose('b', NAMES)
    op = h.choose('op', ['+', '-', '+=', '-=', 'sum', 'mean'])
    qa = var(h, c, 'va')
    if op == 'mean' and a != b:
        h.gcd_fork(-1)
        cb = h.choose('cb', [(0, 1), (25, 1), (-7, 2)])
        c.vars['vb'] = (h.lib('objects.number').Number(*cb), None)
        qb = h.q(*cb)
    else:
        qb = var(h, c, 'vb')
    c.unit_simplification_set(h.choose('simplify', [False, True]))
    if op in ('+', '-'):
        t = 'va %s %s vb %s' % (a, op, b)
    elif op in ('sum', 'mean'):
        t = '%s([va %s, vb %s])' % (op, a, b)
    else:
        t = 'vx = va %s\nvx %s vb %s' % (a, op, b)
    r, u = tryevu(h, c, t)
    h.check(not failed(r), 'defined')
    isunit(h, u, [(a, 1)])
    k = rel(h, b) / rel(h, a)
    w = qa - qb * k if op[0] == '-' else qa + qb * k
    if op == 'mean':
        # the mean of two temperatures is the temperature half-way between them
        h.check(kelvin(h, h.q(r), a) * h.q(2) == kelvin(h, qa, a) + kelvin(h, qb, b), 'the mean temperature')
        h.cover(op)
        return
    h.check(h.q(r) == w, op + ': the scales only')
    h.cover(op)


def h_product(h):
    """Products, quotients and powers: only the scale applies."""
    c = h.calc('Computing')
    h.gcd_fork(0)
    a, b = h.choose('a', NAMES), h.choose('b', NAMES + ['', 'joules', 'meters kelvin', 'Celsius^-1'])
    op = h.choose('op', ['*', '/', '^2', '^-1', '*/', 'units'])
    c.unit_simplification_set(h.choose('simplify', [False, True]))
    qa = var(h, c, 'va', True)
    cb = h.choose('vb', [(3, 1), (-5, 2)])
    c.vars['vb'] = (h.lib('objects.number').Number(*cb), None)
    pb = {'': [], 'joules': [('joules', 1)], 'meters kelvin': [('meters', 1), ('kelvin', 1)], 'Celsius^-1': [('Celsius', -1)]}.get(b, [(b, 1)])
    db, sb = U.combine(pb)
    qb = h.q(*cb) * h.q(sb.numerator, sb.denominator)
    qa = qa * rel(h, a)
    if op in ('*', '/'):
        t = '(va %s) %s (vb %s)' % (a, op, b)
        w = qa * qb if op == '*' else qa / qb
        dims = dict(db) if op == '*' else {k: -v for k, v in db.items()}
        dims['K'] = dims.get('K', 0) + 1
    elif op == '*/':
        t = '(va %s) * (vb %s) / (2 Fahrenheit)' % (a, b)
        w = qa * qb / (h.q(2) * rel(h, 'Fahrenheit'))
        dims = dict(db)
    elif op == 'units':
        t = h.choose('compact', ['va %s %s', 'vx = va %s %s\nvx * 1'] + (['compact(va %s %s)'] if b not in ('', 'Celsius^-1') else [])) % (a, b)
        w = qa * h.q(sb.numerator, sb.denominator)
        dims = dict(db)
        dims['K'] = dims.get('K', 0) + 1
    else:
        n = int(op[1:])
        t = '(va %s)^(%d)' % (a, n)
        w = qa ** n
        dims = {'K': n}
    r, u = tryevu(h, c, t)
    h.check(not failed(r), 'defined')
    m, d = magnitude(h, r, u)
    h.check(d == {k: v for k, v in dims.items() if v}, 'the dimensions')
    h.check(m == w, op + ': the scales only')
    h.cover(op)


def h_compound(h):
    """Inside a compound unit only the scale converts."""
    c = h.calc('Computing')
    h.gcd_fork(0)
    a, b = h.choose('a', NAMES), h.choose('b', NAMES)
    q = var(h, c, 'va')
    f, pa = h.choose('f', [('joules X^-1', -1), ('X/seconds', 1), ('watts/(meters X)', -1), ('X^2', 2), ('X^-1', -1), ('X meters', 1)])
    r, u = tryevu(h, c, 'va %s to %s' % (f.replace('X', a), f.replace('X', b)))
    h.check(not failed(r), 'defined')
    h.check((b, pa) in U.parts(u), 'the unit asked for')
    h.check(h.q(r) == q * (rel(h, a) / rel(h, b)) ** pa, 'the scales only')
    h.cover('done')


def h_compare(h):
    """Temperatures compare as they are."""
    c = h.calc('Computing')
    a, b = h.choose('a', NAMES), h.choose('b', NAMES)
    op = h.choose('op', ['<', '>', '<=', '>=', '==', '!='])
    qa, qb = var(h, c, 'va'), var(h, c, 'vb')
    r, u = tryevu(h, c, 'va %s %s vb %s' % (a, op, b))
    h.check(not failed(r), 'defined')
    x, y = kelvin(h, qa, a), kelvin(h, qb, b)
    w = {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[op]
    h.check(h.is_true(r) == h.is_true(w), op)
    h.cover(op)


def h_order(h):
    """Temperatures are put in order as they are, whatever their units, and come back as they were written."""
    c = h.calc('Computing')
    a, b = h.choose('a', NAMES), h.choose('b', NAMES)
    op = h.choose('op', ['min', 'max', 'sort', 'median', 'sort3'])
    qa, qb = var(h, c, 'va'), var(h, c, 'vb')
    ka, kb = kelvin(h, qa, a), kelvin(h, qb, b)
    less = h.is_true(ka <= kb)
    if op in ('min', 'max'):
        r, u = tryevu(h, c, '%s([va %s, vb %s])' % (op, a, b))
        h.check(not failed(r), 'defined')
        first = less == (op == 'min')
        if ka != kb:
            isunit(h, u, [(a if first else b, 1)])
            h.check(h.q(r) == (qa if first else qb), 'the element itself')
    elif op == 'median':
        h.gcd_fork(-1)
        r, u = tryevu(h, c, 'median([va %s, vb %s, (0 - 1000000) kelvin, va %s, vb %s, 1000000 kelvin, 1000000 kelvin])' % (a, b, a, b))
        h.check(not failed(r), 'defined')
        isunit(h, u, [(a, 1)])
        h.check(kelvin(h, h.q(r), a) == (kb if less else ka), 'the one in the middle')
    else:
        third = ', 1000000 kelvin' if op == 'sort3' else ''
        r, u = tryevu(h, c, 'sort([va %s, vb %s%s])' % (a, b, third))
        h.check(not failed(r) and len(r) == (3 if third else 2), 'defined')
        want = [(qa, a), (qb, b)] if less else [(qb, b), (qa, a)]
        if ka != kb:
            for e, (q, n) in zip(r, want):
                isunit(h, e.unit, [(n, 1)])
                h.check(h.q(e.value) == q, 'the elements in order')
    h.cover(op)


HARNESSES = [
    dict(name='to', fn=h_to, quick={'m': 10 ** 6, 'dens': [1]}, thorough={'m': 10 ** 12, 'dens': [1, 2, 9, 7, 100]}, bounds='all pairs of the three units in every spelling; n/d, n up to m', covers=['to', 'back', 'third', 'array', 'literal']),
    dict(name='points', fn=h_points, quick={}, thorough={}, bounds='9 fixed points', covers=['done']),
    dict(name='sum', fn=h_sum, quick={'m': 10 ** 4, 'dens': [1]}, thorough={'m': 10 ** 9, 'dens': [1, 9]}, bounds='all pairs of units, whole numbers up to m', covers=['+', '-', '+=', '-=', 'sum', 'mean']),
    dict(name='product', fn=h_product, quick={'m': 10 ** 4, 'dens': [1]}, thorough={'m': 10 ** 9, 'dens': [1, 9]}, bounds='one symbolic operand, the other one of two constants', covers=['*', '/', '^2', '^-1', '*/', 'units']),
    dict(name='compound', fn=h_compound, quick={'m': 10 ** 4, 'dens': [1]}, thorough={'m': 10 ** 9, 'dens': [1, 9]}, bounds='6 compound units over all pairs', covers=['done']),
    dict(name='compare', fn=h_compare, quick={'m': 10 ** 4, 'dens': [1]}, thorough={'m': 10 ** 9, 'dens': [1, 9]}, bounds='all pairs, whole numbers up to m', covers=['<', '==']),
    dict(name='order', fn=h_order, quick={'m': 10 ** 4, 'dens': [1]}, thorough={'m': 10 ** 5, 'dens': [1, 9]}, bounds='arrays of two to seven temperatures, two of them symbolic, all pairs of units', covers=['min', 'max', 'sort', 'median', 'sort3']),
]
