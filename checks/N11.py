"""N11: sum, mean, median, mode, min and max aggregate exactly and ignore order."""
from common import tryev, tryevu, failed
LIBS = ['objects.number']
CALCS = ['Computing']
FUNCS = ['sum', 'mean', 'median', 'mode', 'min', 'max']


def order(h, qs):
    """The values in ascending order (insertion sort on the exact values)."""
    out = []
    for x in qs:
        i = len(out)
        while i > 0 and h.is_true(out[i - 1] > x):
            i -= 1
        out.insert(i, x)
    return out


def want(h, f, qs):
    n = len(qs)
    if f in ('sum', 'mean'):
        t = h.q(0)
        for x in qs:
            t = t + x
        return t if f == 'sum' else t / h.q(n)
    s = order(h, qs)
    if f == 'min':
        return s[0]
    if f == 'max':
        return s[-1]
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / h.q(2)


def ismode(h, qs, m):
    """m occurs, and no value occurs more often."""
    counts = []
    cm = 0
    for x in qs:
        if h.is_true(x == m):
            cm += 1
        counts.append(sum(1 for y in qs if h.is_true(y == x)))
    return cm > 0 and cm == max(counts)


def judge(h, f, qs, r, label):
    h.check(not failed(r), label + ': defined')
    if f == 'mode':
        h.check(ismode(h, qs, h.q(r)), label + ': a value that occurs most often')
    else:
        h.check(h.q(r) == want(h, f, qs), label + ': its definition')


def numbers(h, n):
    vs, qs = {}, []
    dens = h.choose('dens', h.p('dens', [(1,) * 9]))
    N = h.lib('objects.number')
    for i in range(n):
        k = h.int('x%d' % i, -h.p('m'), h.p('m'))
        x, q = N.Number(k, dens[i]), h.q(k, dens[i])
        vs['v' + 'abcdef'[i]] = x
        qs.append(q)
    return vs, qs


def h_def(h):
    """Each aggregate equals its definition on the exact values, whichever way the values are given."""
    c = h.calc('Computing')
    f = h.choose('f', h.p('f', FUNCS))
    n = h.choose('n', h.p('n'))
    vs, qs = numbers(h, n)
    names = ', '.join(vs)
    judge(h, f, qs, tryev(h, c, f + '([' + names + '])', vs), 'array')
    if n > 1:
        judge(h, f, qs, tryev(h, c, f + '(' + names + ')'), 'separate arguments')
    h.cover(f)


def h_order(h):
    """Permuting the elements does not change the value (mode: still a most frequent value)."""
    c = h.calc('Computing')
    f = h.choose('f', FUNCS)
    n = h.p('n')
    vs, qs = numbers(h, n)
    names = list(vs)
    a = tryev(h, c, f + '([' + ', '.join(names) + '])', vs)
    k = h.choose('perm', ['rev', 'rot', 'swap'])
    p = {'rev': names[::-1], 'rot': names[1:] + names[:1], 'swap': [names[1], names[0]] + names[2:]}[k]
    b = tryev(h, c, f + '([' + ', '.join(p) + '])')
    h.check(not failed(a) and not failed(b), 'defined')
    if f == 'mode':
        h.check(ismode(h, qs, h.q(b)), 'a value that occurs most often')
    else:
        h.check(h.q(a) == h.q(b), 'the order does not matter')
    h.cover(f)


UNITS = {'centimeters': (1, 100), 'meters': (1, 1), 'kilometers': (1000, 1), 'inches': (254, 10000),
         'seconds': (1, 1), 'minutes': (60, 1), 'hours': (3600, 1), 'days': (86400, 1), 'weeks': (604800, 1)}


def h_units(h):
    """With units the aggregate is that of the quantities."""
    c = h.calc('Computing')
    f = h.choose('f', FUNCS)
    us = h.choose('units', h.p('units'))
    vs, qs, parts = {}, [], []
    for i, u in enumerate(us):
        x, q = h.number('x%d' % i, -h.p('m'), h.p('m'), 1)
        vs['v' + 'abcdef'[i]] = x
        parts.append('v' + 'abcdef'[i] + ' ' + u)
        qs.append(q * h.q(*UNITS[u]))
    sep = h.choose('sep', [False, True])
    r, u = tryevu(h, c, f + ('(%s)' if sep else '([%s])') % ', '.join(parts), vs)
    h.check(not failed(r) and u is not None, 'a quantity')
    ups = u.list()
    name = ups[0].unit.plural()
    h.check(len(ups) == 1 and ups[0].power.to_decimal() == 1 and name in us, 'in one of the units given')
    r = h.q(r) * h.q(*UNITS[name])
    if f == 'mode':
        h.check(ismode(h, qs, r), 'a quantity that occurs most often')
    else:
        h.check(r == want(h, f, qs), 'the aggregate of the quantities')
    h.cover(f)


def h_mixed(h):
    """Quantities of different dimensions have no aggregate."""
    c = h.calc('Computing')
    f = h.choose('f', FUNCS)
    us = h.choose('units', [('meters', 'seconds'), ('meters', ''), ('', 'seconds'), ('meters', 'meters^2'), ('kilograms', 'kilograms', 'seconds')])
    vs, parts = {}, []
    for i, u in enumerate(us):
        vs['v' + 'abc'[i]] = h.number('x%d' % i, -9, 9, 1)[0]
        parts.append('v' + 'abc'[i] + ' ' + u)
    r = tryev(h, c, f + '([%s])' % ', '.join(parts), vs)
    h.check(failed(r), 'different dimensions are an error')
    h.cover('done')


def h_operands(h):
    """The array aggregated is unchanged."""
    c = h.calc('Computing')
    f = h.choose('f', FUNCS)
    vs, qs = numbers(h, 3)
    tryev(h, c, 'vl = [va, vb, vc]', vs)
    tryev(h, c, f + '(vl)')
    vl = c.vars['vl'][0]
    h.check(len(vl) == 3, 'the length stays')
    for x, q in zip(vl, qs):
        h.check(h.q(x.value) == q and x.unit is None, 'each element stays')
    h.cover('done')


HARNESSES = [
    dict(name='def', fn=h_def, quick={'n': [1, 2, 3], 'm': 100, 'dens': [(1, 1, 1), (2, 3, 1)]}, thorough={'n': [1, 2, 3, 4], 'm': 10 ** 4, 'dens': [(1, 1, 1, 1), (2, 3, 1, 6), (7, 7, 3, 1)]}, bounds='arrays of up to 3 (thorough 4) rationals n/d, n up to m, with the listed denominators', covers=FUNCS),
    dict(name='order', fn=h_order, quick={'n': 3, 'm': 1000}, thorough={'n': 4, 'm': 10 ** 4}, bounds='arrays of 3 (4) whole numbers; reversal, rotation and swap generate the permutations', covers=FUNCS),
    dict(name='units', fn=h_units, quick={'m': 1000, 'units': [('seconds', 'minutes'), ('hours', 'minutes'), ('hours', 'weeks', 'days')]},
         thorough={'m': 10 ** 5, 'units': [('meters', 'centimeters'), ('kilometers', 'inches'), ('seconds', 'minutes'), ('hours', 'weeks', 'days'), ('minutes', 'seconds', 'minutes')]}, bounds='whole numbers up to m in the listed units', covers=FUNCS),
    dict(name='mixed', fn=h_mixed, quick={}, thorough={}, bounds='whole numbers up to 9', covers=['done']),
    dict(name='operands', fn=h_operands, quick={'m': 50}, thorough={'m': 1000, 'dens': [(1, 1, 1), (2, 3, 1)]}, bounds='arrays of 3 numbers', covers=['done']),
]
