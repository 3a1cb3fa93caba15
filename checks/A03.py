"""A03: array functions preserve and order elements as documented."""
from common import tryev, tryevu, failed
LIBS = ['objects.number', 'objects.items', 'objects.exceptions']
CALCS = ['Computing']
UNITS = ['', 'days', 'weeks', 'meters']
SCALE = {'days': 1, 'weeks': 7, '': 1}


def elems(h, c, name, n, units, lo, hi):
    """Stores an array of n elements in the variable; returns what each element must be."""
    N = h.lib('objects.number')
    out, parts = [], []
    for i in range(n):
        v = name + 'abcd'[i]
        u = h.choose(v + '_unit', units) if len(units) > 1 else units[0]
        if u == 'string':
            s = h.str(v, 1, "ab1")
            c.vars[v] = (s, None)
            out.append(('s', s, None))
            parts.append(v)
            continue
        x = h.int(v, lo, hi)
        c.vars[v] = (N.Number(x), None)
        out.append(('n', h.q(x), u + '^1' if u else None, x))
        parts.append(v + (' ' + u if u else ''))
    tryev(h, c, name + ' = [' + ', '.join(parts) + ']')
    return out


def match(h, got, want, label):
    h.check(isinstance(got, list) and len(got) == len(want), label + ': length')
    for g, w in zip(got, want):
        one(h, g.value, g.unit, w, label)


def one(h, v, u, w, label):
    h.check((None if u is None else str(u)) == w[2], label + ': unit')
    if w[0] == 's':
        h.check(type(v).__name__ != 'Number' and v == w[1], label + ': value')
    else:
        h.check(type(v).__name__ == 'Number' and h.q(v) == w[1], label + ': value')


def h_order(h):
    """reverse, concat and count."""
    c = h.calc('Computing')
    f = h.choose('f', ['reverse(vl)', 'concat(vl, vr)', 'count(vl)', 'reverse(reverse(vl))', 'concat(vl, vl)', 'count(concat(vl, vr))', 'reverse(concat(vl, vr))'])
    n = h.choose('n', h.p('n'))
    m = h.choose('m', h.p('n')) if 'vr' in f else 0
    units = ['', 'days', 'string']
    l = elems(h, c, 'vl', n, units, -9, 9)
    r = elems(h, c, 'vr', m, units[:2], -9, 9) if m else []
    got, u = tryevu(h, c, f)
    h.check(not failed(got) and u is None, 'a result')
    if f.startswith('count'):
        h.check(h.q(got) == len(l) + (len(r) if 'vr' in f else 0), 'the length')
    else:
        want = {'reverse(vl)': l[::-1], 'concat(vl, vr)': l + r, 'reverse(reverse(vl))': l, 'concat(vl, vl)': l + l, 'reverse(concat(vl, vr))': r[::-1] + l[::-1]}[f]
        match(h, got, want, f)
    match(h, c.vars['vl'][0], l, 'the array given is unchanged')
    if m:
        match(h, c.vars['vr'][0], r, 'the array given is unchanged')
    h.cover(f)


def h_element(h):
    c = h.calc('Computing')
    N = h.lib('objects.number')
    n = h.choose('n', [1, 2, 3])
    l = elems(h, c, 'vl', n, ['', 'days', 'string'], -9, 9)
    i = h.int('i', -h.p('m'), h.p('m'))
    form = h.choose('form', ['element(vl, vi)', 'element(vl, vi + 0)', 'element(vl, vs)', 'element(reverse(vl), vi)'])
    vs = {'vi': N.Number(i), 'vs': (str(i), None)}
    got, u = tryevu(h, c, form, vs)
    if not h.is_true(i >= 1) or not h.is_true(i <= n):
        h.check(failed(got), 'an index out of range is an error')
        h.cover('outside')
    else:
        k = [j for j in range(n) if h.is_true(h.q(i) == j + 1)][0]
        w = l[::-1][k] if 'reverse' in form else l[k]
        h.check(not failed(got), 'an index within the array gives a value')
        one(h, got, u, w, 'the element at the index')
        h.cover('inside')
    match(h, c.vars['vl'][0], l, 'the array given is unchanged')


def h_element_array(h):
    """An array of indexes gives the array of those elements."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    l = elems(h, c, 'vl', 2, ['', 'days'], -9, 9)
    i, j = h.int('i', 0, 3), h.int('j', 1, 2)
    got, u = tryevu(h, c, 'element(vl, [vi, vj])', {'vi': N.Number(i), 'vj': N.Number(j)})
    h.check(not failed(got) and isinstance(got, list) and len(got) == 2, 'one element per index')
    if h.is_true(i < 1) or h.is_true(i > 2):
        h.check(isinstance(got[0].value, Exception), 'an error in its own position')
        h.cover('error')
    else:
        one(h, got[0].value, got[0].unit, l[0 if h.is_true(h.q(i) == 1) else 1], 'first')
    one(h, got[1].value, got[1].unit, l[0 if h.is_true(h.q(j) == 1) else 1], 'second')
    h.cover('done')


def h_filter(h):
    c = h.calc('Computing')
    n = h.choose('n', [1, 2, 3])
    l = elems(h, c, 'vl', n, ['', 'days', 'string'][:h.p('u')], -9, 9)
    form = h.choose('form', ['var', 'comparison'])
    if form == 'var':
        bs = [h.bool('b%d' % i) for i in range(n)]
        for i, b in enumerate(bs):
            c.vars['vb' + 'abcd'[i]] = (b, None)
        got, u = tryevu(h, c, 'filter(vl, [' + ', '.join('vb' + 'abcd'[i] for i in range(n)) + '])')
        keep = [bool(b) for b in bs]
    else:
        for w in l:
            h.assume(w[0] == 'n' and w[2] is None)
        got, u = tryevu(h, c, 'filter(vl, vl > 2)')
        keep = [h.is_true(w[1] > 2) for w in l]
    h.check(not failed(got) and u is None, 'a result')
    match(h, got, [w for w, k in zip(l, keep) if k], 'the elements marked true, in order')
    match(h, c.vars['vl'][0], l, 'the array given is unchanged')
    h.cover('all' if all(keep) else 'none' if not any(keep) else 'some')


def h_sort(h):
    """A permutation in ascending order of quantity, each element in its own unit."""
    c = h.calc('Computing')
    n = h.choose('n', h.p('n'))
    unitless = h.choose('unitless', [True, False])
    m = h.p('m')
    l = elems(h, c, 'vl', n, [''] if unitless else ['days', 'weeks'], -m, m)
    got, u = tryevu(h, c, 'sort(vl)')
    h.check(not failed(got) and isinstance(got, list) and len(got) == n and u is None, 'an array of the same length')

    def quantity(v, unit):
        return h.q(v) * (7 if unit is not None and str(unit) == 'weeks^1' else 1)

    qs = [quantity(e.value, e.unit) for e in got]
    for a, b in zip(qs, qs[1:]):
        h.check(a <= b, 'ascending order')
    # a permutation: match each element given with one not yet used
    left = list(got)
    for w in l:
        for e in left:
            if (None if e.unit is None else str(e.unit)) == w[2] and h.is_true(h.q(e.value) == w[1]):
                left.remove(e)
                break
        else:
            h.fail('an element is lost or changed')
    match(h, c.vars['vl'][0], l, 'the array given is unchanged')
    h.cover('units' if not unitless else 'plain')


def h_sort_kinds(h):
    """Numbers written as strings or booleans sort as numbers and stay what they are; other values are an error."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    x = h.int('x', -1, 11)
    s = h.choose('s', ['5', '10', '0.5', 'b', ''])
    got = tryev(h, c, 'sort([vs, vx])', {'vs': (s, None), 'vx': N.Number(x)})
    if s in ('b', ''):
        h.check(failed(got), 'not numbers')
        h.cover('wrong')
    else:
        q = {'5': h.q(5), '10': h.q(10), '0.5': h.q(1, 2)}[s]
        h.check(not failed(got) and len(got) == 2, 'sorted')
        first = 0 if h.is_true(q <= x) else 1
        if not h.is_true(q == x):
            h.check(got[first].value == s and type(got[first].value).__name__ != 'Number', 'the string as it was')
            h.check(h.q(got[1 - first].value) == x, 'the number as it was')
        h.cover('like numbers')


def h_wrong(h):
    """Values that are not arrays, and wrong numbers of arguments, are errors."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    vs = {'vx': N.Number(h.int('x', -3, 3)), 'vs': (h.str('s', (0, 2), 'a1'), None)}
    tryev(h, c, 'vl = [vx, 2]', vs)
    t = h.choose('t', ['count(vx)', 'count(vs)', 'reverse(vx)', 'sort(vx)', 'concat(vl, vx)', 'concat(vx, vl)', 'concat(vl)', 'concat(vl, vl, vl)', 'element(vl)', 'element(vx, 1)', "element(vl, 'a')", 'filter(vl, vx)', 'filter(vl, vl)',
                           'filter(vx, [true])', 'filter(vl)', 'sort([1, 2 meters])', 'sort([1 days, 2 meters])', 'sort([1, [2]])', 'count()'])
    h.check(failed(tryev(h, c, t)), 'an error')
    h.cover('done')


HARNESSES = [
    dict(name='order', fn=h_order, quick={'n': [1, 2]}, thorough={'n': [1, 2, 3]}, bounds='arrays of up to 2 (3) elements: numbers with or without unit, strings',
         covers=['reverse(vl)', 'concat(vl, vr)', 'count(vl)', 'reverse(reverse(vl))', 'concat(vl, vl)', 'count(concat(vl, vr))', 'reverse(concat(vl, vr))']),
    dict(name='element', fn=h_element, quick={'m': 5}, thorough={'m': 1000}, bounds='arrays of up to 3 elements, whole indexes up to m', covers=['inside', 'outside']),
    dict(name='element_array', fn=h_element_array, quick={}, thorough={}, bounds='two elements and two indexes', covers=['done', 'error']),
    dict(name='filter', fn=h_filter, quick={'u': 2}, thorough={'u': 3}, bounds='arrays of up to 3 elements', covers=['all', 'none', 'some']),
    dict(name='sort', fn=h_sort, quick={'n': [1, 2, 3], 'm': 10}, thorough={'n': [1, 2, 3, 4], 'm': 100}, bounds='arrays of up to 3 (4) numbers up to m', covers=['units', 'plain']),
    dict(name='sort_kinds', fn=h_sort_kinds, quick={}, thorough={}, bounds='two elements', covers=['wrong', 'like numbers']),
    dict(name='wrong', fn=h_wrong, quick={}, thorough={}, bounds='listed calls on symbolic values', covers=['done']),
]
