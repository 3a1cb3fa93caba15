"""E06: parse-only, stateless and failing evaluation leave variables untouched."""
from common import tryev, failed, run, val, equal, snap, samevars
LIBS = ['objects.number', 'objects.items', 'objects.exceptions']
CALCS = ['Computing']

# statements with the variables they may assign or delete
STATEMENTS = [
    ('va', []), ('x = va + 1', ['x']), ('va = vb', ['va']), ('va += vb', ['va']), ('va -= vb', ['va']), ('va *= 2', ['va']), ('va /= vb', ['va']), ('va ^= 2', ['va']), ('va %= vb', ['va']), ('va \\= vb', ['va']), ('va++', ['va']), ('va--', ['va']), ('x ||= va', ['x']), ('va ||= 9', ['va']),
    ('delete(va)', ['va']), ('delete(vl)', ['vl']), ('reset()', None), ('vl = [va, vb]', ['vl']), ('vl += va', ['vl']), ('vl *= vl', ['vl']), ('vs = vs +$ \'a\'', ['vs']), ('element(vl, 1)', []), ('reverse(vl)', []), ('sort(vl)', []), ('concat(vl, [va])', []), ('filter(vl, [true, false])', []),
    ('sum(vl)', []), ('max(vl)', []), ('mode(vl)', []), ('vl * 2', []), ('vl to weeks', []), ('vt to days', []), ('vt + 1 days', []), ('vt < 5 days', []), ('vp as decimal', []), ('vp as scientific', []), ('vp + 1', []), ('1 + vp', []), ('abs(vp)', []), ('floor(vp)', []), ('round(vt, 1)', []),
    ('va as percentage', []), ('bin(va)', []), ('x = vl', ['x']), ('x = vt to weeks', ['x']), ('vt = vt to weeks', ['vt']), ('vt *= 2', ['vt']), ('vt += 1 weeks', ['vt']), ('@ff(va)', []), ('@ff(vl)', []), ('@gg(va, vb)', []), ('x = @gg(va, vb)', ['x']), ('ff = {PARAM1}', ['ff']), ('va = 1 / va', ['va']), ('x = 1 / va', ['x']),
    ('va += vt', ['va']), ('vl = [1 / va, 2]', ['vl']), ('va = missing', ['va']), ('va = vb = 3', ['va', 'vb']), ('va < vb then x = 1 else vb = 2', ['x', 'vb']), ('[va, vb]', []), ('[va..vb]', []), ('vs *$ 2', []), ('upper(vs)', []), ("replace(vs, 'a', 'b')", []), ('join([vs, va])', []), ('length(vl)', []),
    ('-va', []), ('va (vb)', []), ('~ va', []), ('va << 1', []), ('0b11 & va', []), ('vw | 1', []), ('~ vw', []), ('x = ~ vw', ['x']), ('vl == vl', []), ('vl = sort(vl)', ['vl']), ('vn = element(vm, 1)', ['vn']), ('vm', []), ('vm * va', []), ('reverse(vm)', []), ('vm to weeks', []), ('x = vm', ['x']),
    ("'", []), ('va = )', []), ('va = (', []), ('va = 1 +', []), ('va = [1', []), ('@missing(1)', []), ('va vb vx', []), ('va = vb\nvb = 1 / 0', ['va', 'vb']), ('element(vl, 9)', []), ('va = element(vl, 9)', ['va']), ('vl = vl + [1, 2, 3]', ['vl']), ('va = vt + vb', ['va']), ('va[1]', []), ('delete(missing)', []), ('delete(va + 1)', []),
    ('va to weeks', []), ('va = va to weeks', ['va']), ('vt = vt + vb', ['vt']), ('reset(1)', []), ('{PARAM1}', []), ('vk = @hh(va)', ['vk']), ('@hh(va)', []),
]


def setup(h, c, m, concrete=False):
    N = h.lib('objects.number')
    O = h.lib('objects.items').OperandResult
    for n in ('va', 'vb'):
        c.vars[n] = (N.Number(h.choose(n, [-1, 0, m]) if concrete else h.int(n, -1, m)), None)
    c.vars['vs'] = (h.str('vs', 1, "a5"), None)
    for s in ('vt = va days', 'vl = [va weeks, 10 days]', 'vp = 25% * va', 'vw = 0b0101', 'vm = [[va, 2], [vb weeks]]', 'ff = {PARAM1 + 1}', 'gg = {va = PARAM2\nvl = 3\nva / PARAM1}', 'hh = {PARAM1 = PARAM1 * 2\nvm = PARAM1\n[vm, PARAM1]}'):
        h.check(not failed(tryev(h, c, s)), 'setting a variable')


def full(h, c):
    """The variables with values, units, representations and elements as they are now."""
    return {k: deep(h, v[0], v[1]) for k, v in c.vars.items()}


def deep(h, v, u):
    t = type(v).__name__
    us = None if u is None else str(u)
    if isinstance(v, list):
        return ('array', [deep(h, e.value, e.unit) for e in v], us)
    if t == 'Number':
        cast = v.number_cast
        return ('number', h.q(v), us, None if cast is None else sorted((k, str(x) if k == 'args' else '' if callable(x) else str(x)) for k, x in cast.items()), None if cast is None or 'to_string' not in cast else getattr(cast['to_string'], '__qualname__', ''), getattr(v, 'binary_number_width', None))
    if isinstance(v, Exception):
        return ('error',)
    if t == 'InlineFunctionItem':
        return ('function', v.text)
    return (t if t not in ('SymBool', 'SymStr') else {'SymBool': 'bool', 'SymStr': 'str'}[t], v, us)


def same(h, a, b, label):
    """Asserts that two values (as given by deep) are the same in every respect."""
    h.check(a[0] == b[0] and len(a) == len(b), label + ': kind')
    if a[0] == 'array':
        h.check(len(a[1]) == len(b[1]), label + ': length')
        for x, y in zip(a[1], b[1]):
            same(h, x, y, label)
        h.check(a[2] == b[2], label + ': unit')
    else:
        for x, y in zip(a[1:], b[1:]):
            h.check(x == y, label)


def samefull(h, before, after, label, but=()):
    h.check(set(before) - set(but) == set(after) - set(but), label + ': which variables exist')
    for k in before:
        if k not in but:
            same(h, before[k], after[k], label + ': ' + k)


def calc(h, c, text, flags=None):
    E = h.lib('objects.exceptions')
    try:
        return c.calculate(text, flags), None
    except E.CalculatingException as e:
        return (e.response if e.has_response() else None), e


def h_parse_only(h):
    """Nothing is executed."""
    c = h.calc('Computing')
    setup(h, c, h.p('m'))
    t, _ = h.choose('text', STATEMENTS)
    before = full(h, c)
    t2 = h.choose('second', ['', '\nva = 5', '\n1 / 0'])
    r, e = calc(h, c, t + t2, {'parse_only': True})
    if r is not None:
        for x in r.results:
            h.check(not x.has_result(), 'a parsed statement has no result')
    if e is not None:
        h.check(type(e).__name__ == 'ParsingException', 'only parsing fails')
        h.cover('error')
    else:
        h.cover('parsed')
    samefull(h, before, full(h, c), 'a variable')


def h_stateless(h):
    """No variable changes, and the results are those of a normal evaluation."""
    c = h.calc('Computing')
    setup(h, c, h.p('m'))
    t, _ = h.choose('text', STATEMENTS)
    before = full(h, c)
    r, e = calc(h, c, t, {'stateless': True})
    samefull(h, before, full(h, c), 'a variable')
    if '\n' in t:
        return
    r2, e2 = calc(h, c, t)
    h.check((e is None) == (e2 is None), 'whether it fails')
    h.cover('error' if e is not None else 'value')
    if e is None:
        got = [x for x in r.results if x.has_result()]
        want = [x for x in r2.results if x.has_result()]
        h.check(len(got) == len(want), 'the results')
        for x, y in zip(got, want):
            equal(h, val(h, x.value, x.unit), val(h, y.value, y.unit), 'the result')


def h_effects(h):
    """A statement changes no variable but those it assigns, and none when it fails."""
    c = h.calc('Computing')
    setup(h, c, h.p('m'))
    t, targets = h.choose('text', STATEMENTS)
    before = full(h, c)
    r, e = calc(h, c, t)
    after = full(h, c)
    if e is not None:
        if '\n' not in t and t.count(' = ') < 2:
            samefull(h, before, after, 'a variable after a failing statement')
        else:
            samefull(h, before, after, 'a variable after a failing statement', targets)
        h.cover('error')
    elif targets is None:
        h.check(len(after) == 0, 'reset leaves no variable')
    else:
        samefull(h, before, after, 'a variable the statement does not assign', targets)
        h.cover('value')


def h_immutable(h):
    """Values returned or stored earlier are not altered by later evaluations."""
    c = h.calc('Computing')
    setup(h, c, h.p('m'))
    first = h.choose('first', ['vl', 'vt', 'vp', 'vw', 'vm', 'x = vl', 'x = vt', 'x = vm', 'x = [vl, vt, vp]', 'vl * 1', 'element(vm, 1)', 'reverse(vl)', '@ff(vl)', 'vs', 'ff', 'va', '[va, vp]', 'vt * vt', 'vp * 2', 'x = vp', 'x = vw'])
    r, e = calc(h, c, first)
    if e is not None:
        return
    got = [(x.value, x.unit) for x in r.results if x.has_result()]
    was = [deep(h, v, u) for v, u in got]
    xs = full(h, c).get('x')
    t, targets = h.choose('text', STATEMENTS)
    calc(h, c, t)
    for (v, u), w in zip(got, was):
        same(h, w, deep(h, v, u), 'a value returned earlier')
    if xs is not None and targets is not None and 'x' not in targets:
        same(h, xs, full(h, c)['x'], 'a value stored earlier')
    h.cover('value')


HARNESSES = [
    dict(name='parse only', fn=h_parse_only, quick={'m': 1}, thorough={'m': 2}, bounds='listed texts; variables -1..m', covers=['error', 'parsed']),
    dict(name='stateless', fn=h_stateless, quick={'m': 1}, thorough={'m': 3}, bounds='listed texts; variables -1..m', covers=['error', 'value']),
    dict(name='effects', fn=h_effects, quick={'m': 1}, thorough={'m': 3}, bounds='listed texts; variables -1..m', covers=['error', 'value']),
    dict(name='immutable', fn=h_immutable, quick={'m': 1}, thorough={'m': 2}, bounds='listed texts in sequence; variables -1..m', covers=['value']),
]
