"""A02: array ranges enumerate exactly the stated progression."""
from common import tryev, tryevu, failed
LIBS = ['objects.number', 'objects.items', 'objects.exceptions']
CALCS = ['Computing']


def progression(h, c, text, vs, a, b, s, unit, limit):
    """The reference: which progression [a..b step s] must be (all in the unit of the start)."""
    got, u = tryevu(h, c, text, vs)
    up = h.is_true(s > 0)
    if not up and h.is_true(s == 0):
        h.cover('zero step')
        # bounded: no elements, one element (the start), or an error
        h.check(failed(got) or (isinstance(got, list) and len(got) <= 1), 'a zero step gives no progression')
        return
    if h.is_true((a < b) if not up else (a > b)):
        h.check(failed(got), 'a step pointing away from the end is an error')
        h.cover('away')
        return
    h.check(not failed(got) and isinstance(got, list) and u is None, 'a range is an array')
    n = 0
    e = a
    while h.is_true((e <= b) if up else (e >= b)):
        h.check(n < len(got), 'no element is missing')
        x = got[n]
        h.check(h.q(x.value) == e, 'the elements are the progression')
        h.check((None if x.unit is None else str(x.unit)) == unit, 'the elements have the unit of the start')
        e = e + s
        n += 1
        if n > limit:
            h.fail('bound exceeded')
    h.check(len(got) == n, 'nothing after the last value within the range')
    h.cover('empty' if n == 0 else 'one' if n == 1 else 'many')
    h.cover('up' if up else 'down')


def h_plain(h):
    c = h.calc('Computing')
    N = h.lib('objects.number')
    m = h.p('m')
    d = h.choose('d', h.p('dens'))
    a, b = h.int('a', -m, m), h.int('b', -m, m)
    vs = {'va': N.Number(a, d), 'vb': N.Number(b, d)}
    qa, qb = h.q(a, d), h.q(b, d)
    step = h.choose('step', ['none', 'var', 'var2'])
    sp = h.choose('space', ['', ' '])
    if step == 'none':
        s = h.q(1) if h.is_true(qb >= qa) else h.q(-1)
        text = '[va' + sp + '..' + sp + 'vb]'
    else:
        sn = h.int('s', -h.p('sm'), h.p('sm'))
        sd = h.choose('sd', h.p('dens'))
        vs['vs'] = N.Number(sn, sd)
        s = h.q(sn, sd)
        text = '[va..vb step vs]' if step == 'var' else '[va ..vb + 0 step vs * 1 ]'
    progression(h, c, text, vs, qa, qb, s, None, 8 * m + 2)


def h_literal(h):
    """Written with literals."""
    c = h.calc('Computing')
    x = h.str('x', (1, 2), '0123456789')
    y = h.str('y', 1, '0123456789')
    form = h.choose('form', ['[x..y]', '[x .. y]', '[x.5..y]', '[-x..y]', '[x..-y]', '[x..y.5]', "['x'..'y']", '[x..y, x]'])
    N = h.lib('objects.number')
    qx = h.q(0)
    for ch in x:
        qx = qx * 10 + h.digit(ch, '0123456789')
    qy = h.q(h.digit(y, '0123456789'))
    h.assume(qx - qy <= 4)
    h.assume(qy - qx <= 4)
    text, a, b = {'[x..y]': ('[' + x + '..' + y + ']', qx, qy), '[x .. y]': ('[' + x + ' .. ' + y + ']', qx, qy),
                  '[x.5..y]': ('[' + x + '.5..' + y + ']', qx + h.q(1, 2), qy), '[-x..y]': ('[-' + x + '..' + y + ']', -qx, qy),
                  '[x..-y]': ('[' + x + '..-' + y + ']', qx, -qy), '[x..y.5]': ('[' + x + '..' + y + '.5]', qx, qy + h.q(1, 2)),
                  "['x'..'y']": ("['" + x + "'..'" + y + "']", qx, qy), '[x..y, x]': ('[' + x + '..' + y + ']', qx, qy)}[form]
    if form == '[x..y, x]':
        # a range among other elements
        got = tryev(h, c, '[' + y + ', ' + x + '..' + y + ', ' + x + ']')
        want = tryev(h, c, text)
        h.check(not failed(got) and len(got) == len(want) + 2, 'a range among other elements')
        h.check(h.q(got[0].value) == qy, 'element before')
        h.check(h.q(got[-1].value) == qx, 'element after')
        for e, f in zip(got[1:-1], want):
            h.check(h.q(e.value) == h.q(f.value), 'range elements')
        h.cover('mixed')
        return
    s = h.q(1) if h.is_true(b >= a) else h.q(-1)
    progression(h, c, text, {}, a, b, s, None, 40)


def h_units(h):
    """Start, end and step in different units of one dimension."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    S = {'days': 1, 'weeks': 7, 'hours': (1, 24), 'meters': 1, 'kilometers': 1000}
    ua, ub, us = h.choose('units', h.p('units'))
    m = h.p('m')
    a, b = h.int('a', -m, m), h.int('b', -m, m)
    vs = {'va': N.Number(a), 'vb': N.Number(b)}
    ra, rb = h.q(*S[ua]) if isinstance(S[ua], tuple) else h.q(S[ua]), h.q(*S[ub]) if isinstance(S[ub], tuple) else h.q(S[ub])
    qa, qb = h.q(a), h.q(b) * rb / ra
    if us is None:
        s = h.q(1) if h.is_true(qb >= qa) else h.q(-1)
        text = '[va %s .. vb %s]' % (ua, ub)
    else:
        rs = h.q(*S[us]) if isinstance(S[us], tuple) else h.q(S[us])
        sn = h.choose('s', [-3, -1, 0, 1, 2])
        vs['vs'] = N.Number(sn)
        s = h.q(sn) * rs / ra
        text = '[va %s .. vb %s step vs %s]' % (ua, ub, us)
    progression(h, c, text, vs, qa, qb, s, ua + '^1', h.p('limit'))


def h_temperature(h):
    """Temperatures: start and end are absolute, the step is a difference."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    a, b = h.int('a', -3, 3), h.int('b', -3, 3)
    sn = h.choose('s', [-2, 1, 2])
    text, qb = h.choose('form', [('[va celsius .. vb celsius step vs celsius]', 0), ('[va celsius .. vb celsius step vs kelvin]', 0), ('[va celsius .. vb kelvin step vs celsius]', 1), ('[va celsius .. vb kelvin]', 2)])
    if qb == 0:
        eb = h.q(b)
        vb = N.Number(b)
    else:
        # b kelvin above the freezing point
        vb = N.Number(b * 20 + 5463, 20)
        eb = h.q(b)
    s = h.q(sn)
    if qb == 2:
        s = h.q(1) if h.is_true(eb >= h.q(a)) else h.q(-1)
    progression(h, c, text, {'va': N.Number(a), 'vb': vb, 'vs': N.Number(sn)}, h.q(a), eb, s, 'Celsius^1', 10)


def h_wrong(h):
    """Only numbers form ranges, with units of one dimension throughout."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    w = h.str('w', (0, 2), 'ax%"')
    d = {"vw": (w, None), 'va': N.Number(h.int('a', -3, 3)), 'vb': N.Number(h.int('b', -3, 3))}
    text = h.choose('text', ['[vw..vb]', '[va..vw]', '[va..vb step vw]', '[va days .. vb]', '[va .. vb days]', '[va days .. vb meters]', '[va days .. vb days step 1 meters]',
                             '[va days .. vb days step 1]', '[va .. vb step 1 days]', '[[va]..vb]', '[va..[vb]]', '[1/0..vb]', '[va..1/0]', '[va..vb step 1/0]', '[va..vn]'])
    got = tryev(h, c, text, d)
    if text == '[va..vn]':
        h.cover('undefined')
    h.check(failed(got), 'not a range')
    h.cover('done')


def h_likenumbers(h):
    """Booleans and numbers written as strings count as numbers."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    a = h.bool('a')
    b = h.int('b', -2, 3)
    text = h.choose('text', ["[va..vb]", "[vb..va]"])
    got = tryev(h, c, text, {'va': (a, None), 'vb': N.Number(b)})
    va = 1 if h.is_true(a) else 0
    want = tryev(h, c, text, {'va': N.Number(va), 'vb': N.Number(b)})
    h.check(not failed(got) and not failed(want) and len(got) == len(want), 'a boolean counts as a number')
    for x, y in zip(got, want):
        h.check(h.q(x.value) == h.q(y.value), 'a boolean counts as a number')
    h.cover('done')


HARNESSES = [
    dict(name='plain', fn=h_plain, quick={'m': 3, 'sm': 2, 'dens': [1, 2]}, thorough={'m': 6, 'sm': 6, 'dens': [1, 2, 3]}, bounds='start and end with numerators up to m and step up to sm over small denominators',
         covers=['zero step', 'away', 'one', 'many', 'up', 'down']),
    dict(name='literal', fn=h_literal, quick={}, thorough={}, bounds='one or two digits, ranges of up to five steps (fifteen with a sign)', covers=['up', 'down', 'mixed']),
    dict(name='units', fn=h_units, quick={'m': 2, 'limit': 40, 'units': [('days', 'weeks', None), ('weeks', 'days', None), ('weeks', 'days', 'weeks'), ('days', 'days', 'weeks')]},
         thorough={'m': 4, 'limit': 100, 'units': [('days', 'weeks', None), ('weeks', 'days', None), ('weeks', 'days', 'weeks'), ('days', 'days', 'weeks'), ('days', 'weeks', 'days'), ('weeks', 'weeks', 'days')]},
         bounds='whole numbers up to m with units days and weeks', covers=['zero step', 'away', 'up', 'down', 'many']),
    dict(name='temperature', fn=h_temperature, quick={}, thorough={}, bounds='whole degrees', covers=['up', 'down', 'away']),
    dict(name='wrong', fn=h_wrong, quick={}, thorough={}, bounds='strings of up to two characters, whole numbers', covers=['done']),
    dict(name='likenumbers', fn=h_likenumbers, quick={}, thorough={}, bounds='booleans and whole numbers', covers=['done']),
]
