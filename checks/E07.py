"""E07: a result depends only on the text and the variables, not on what ran before."""
from common import tryev, failed, run, val, equal, snap, samevars
from E06 import STATEMENTS, setup, deep, same, full
LIBS = ['objects.number', 'objects.items', 'objects.exceptions']
CALCS = ['Computing']

EARLIER = [t for t, _ in STATEMENTS] + ['va +\nvb', 'va < vb then\n1 else 2', '1 +\n', 'va weeks + vb days', 'va days to weeks', 'va meters / second', '5 newtons', 'va kg meters / second^2', '0b11', '0x1f + 1', '36z19', '50%', '2e3', "'x' +$ 'y'", 'va days * vb weeks', 'va celsius to kelvin', 'va celsius to fahrenheit', '[va..vb step 2]', 'va\n\nvb', '# x', 'abs(', 'va to', 'to days', '3 days days', 'not va', 'inch', 'va = inch']
LATER = ['va', 'va + vb', 'vl', 'vt * 2', '1 / va', 'va +\nvb', 'x = va + 1\nx * 2', 'va days + vb weeks', 'vp + va', '~ vw', '@ff(va)', '@gg(va, vb)', '[va..vb]', 'sum(vl)', 'va = )', 'va newtons * vb meters', 'va weeks to days', 'va < vb then\n1 else 2', "vs +$ va", 'va kg meters / second^2', 'va celsius to kelvin', 'va\nvb / va\nvb', 'round(va / 7, 2)', 'mode(vl)', 'x', 'va vb', 'missing', 'abs(va', 'va ++ vb', 'vm', '2 to', '(va', 'va inches', '-va']
SOME = ['va', 'va + vb', 'vl', '1 / va', 'va +\nvb', 'x = va + 1\nx * 2', 'vp + va', '~ vw', '@gg(va, vb)', 'sum(vl)', 'va newtons * vb meters', 'va weeks to days', "vs +$ va", 'va\nvb / va\nvb', 'x', 'vm']


def simplified(*texts):
    """Whether a unit may be simplified (which compares logarithms, so these run on listed values)."""
    return any(u in t for t in texts for u in ('newton', 'kg', 'days * vb', 'meters /', 'vt * vt', 'va /= vb'))


def observe(h, c, text, flags=None):
    """Everything a calculation answers."""
    E = h.lib('objects.exceptions')
    err = None
    try:
        r = c.calculate(text, flags)
    except E.CalculatingException as e:
        err, r = e, e.response
    out = []
    for x in r.results:
        out.append((x.expression, deep(h, x.value, x.unit) if x.has_result() else None))
    if err is not None:
        err = (type(err).__name__, [[i.text for i in s] for s in err.statements], err.next)
    return out, err


def sameanswer(h, a, b, label):
    h.check((a[1] is None) == (b[1] is None), label + ': whether it fails')
    h.check(len(a[0]) == len(b[0]), label + ': how many results')
    for (t, x), (u, y) in zip(a[0], b[0]):
        h.check(t == u, label + ': the text of a statement')
        h.check((x is None) == (y is None), label + ': whether it has a value')
        if x is not None:
            same(h, x, y, label)
    if a[1] is not None:
        h.check(a[1][0] == b[1][0], label + ': the kind of error')
        h.check(len(a[1][1]) == len(b[1][1]) and all(len(s) == len(t) for s, t in zip(a[1][1], b[1][1])), label + ': the items of the error')
        for s, t in zip(a[1][1], b[1][1]):
            for x, y in zip(s, t):
                h.check(x == y, label + ': an item of the error')
        h.check((a[1][2] is None) == (b[1][2] is None), label + ': the text of the error')
        if a[1][2] is not None:
            h.check(a[1][2] == b[1][2], label + ': the text of the error')


def h_history(h):
    """Whatever is calculated in between, the answer is that of a fresh calculator."""
    c = h.calc('Computing')
    B = h.choose('text', h.p('later'))
    A = [h.choose('earlier%d' % i, EARLIER) for i in range(h.p('n'))]
    setup(h, c, h.p('m'), simplified(B, *A))
    flags = h.choose('flags', h.p('flags'))
    before = dict(c.vars)
    fresh = observe(h, c, B)
    after = full(h, c)
    for t in A:
        c.vars = dict(before)
        observe(h, c, t, dict(flags) if flags else None)
    c.vars = dict(before)
    later = observe(h, c, B)
    sameanswer(h, later, fresh, 'the answer')
    end = full(h, c)
    h.check(set(end) == set(after), 'which variables exist')
    for k in after:
        same(h, after[k], end[k], 'a variable')
    h.cover('error' if fresh[1] is not None else 'value')


def h_repeat(h):
    """Repeating a calculation that assigns nothing repeats its result."""
    c = h.calc('Computing')
    t = h.choose('text', LATER + EARLIER)
    setup(h, c, h.p('m'), simplified(t) or '/ v' in t or '^' in t or '@gg' in t or '%' in t or '*= v' in t or '\\' in t)
    before = full(h, c)
    first = observe(h, c, t)
    if set(before) != set(full(h, c)):
        return
    for flags in (None, {'stateless': True}, {'include_state': True}):
        if flags is None or flags.get('include_state'):
            if ' = ' in t or '=' in t.replace('==', '').replace('<=', '').replace('>=', '').replace('!=', '') or '++' in t or '--' in t:
                continue
        again = observe(h, c, t, flags)
        if flags == {'stateless': True} and ('=' in t or '++' in t or '--' in t):
            again2 = observe(h, c, t, flags)
            sameanswer(h, again2, again, 'a stateless repetition')
        else:
            sameanswer(h, again, first, 'a repetition')
    h.cover('error' if first[1] is not None else 'value')


HARNESSES = [
    dict(name='history', fn=h_history, quick={'m': 1, 'n': 1, 'later': SOME, 'flags': [None]}, thorough={'m': 2, 'n': 1, 'later': LATER, 'flags': [None, {'stateless': True}, {'parse_only': True}]}, bounds='listed texts after one listed text; variables -1..m', covers=['error', 'value']),
    dict(name='repeat', fn=h_repeat, quick={'m': 1}, thorough={'m': 2}, bounds='listed texts; variables -1..m', covers=['error', 'value']),
]
