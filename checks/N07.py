"""N07: numbers in other bases denote and display their positional value."""
from common import tryev, failed, Failed
LIBS = ['objects.number']
CALCS = ['Computing']
DIGITS = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def positional(h, whole, frac, base):
    """Exact value of the digit runs in the base, computed digit by digit."""
    v = h.q(0)
    for ch in whole + frac:
        v = v * base + h.digit(ch.upper(), DIGITS)
    return v / h.q(base) ** len(frac)


def alphabet(base, both):
    a = DIGITS[:base]
    return a + (a[10:].lower() if both else '')


def prefix(base):
    return {'bin': '0b', 'BIN': '0B', 'oct': '0o', 'OCT': '0O', 'hex': '0x', 'HEX': '0X'}.get(base) or str(base) + 'z'


def radix(base):
    return {'bin': 2, 'oct': 8, 'hex': 16}[base.lower()] if isinstance(base, str) else base


def h_literal(h):
    """A literal denotes its positional value, with sign, fraction and either letter case."""
    c = h.calc('Computing')
    h.opaque(False)
    kind, w, f = h.choose('base', h.p('bases'))
    b = radix(kind)
    pre = prefix(kind)
    if not isinstance(kind, str) and h.choose('upper', [False, True]):
        pre = pre.upper()
    neg = h.choose('neg', ['', '-'])
    whole = h.str('whole', (1, w), alphabet(b, True))
    frac = h.str('frac', (0, f), alphabet(b, True))
    t = neg + pre + whole + ('.' + frac if len(frac) > 0 else '')
    want = positional(h, whole, frac, b)
    if neg:
        want = -want
    r = tryev(h, c, t)
    h.check(not failed(r), 'the literal is a number')
    h.check(h.q(r) == want, 'the literal denotes its positional value')
    r2 = tryev(h, c, '(' + t + ') + 0')
    h.check(not failed(r2) and h.q(r2) == want, 'and so does the literal inside an expression')
    r3 = tryev(h, c, "'" + t + "' + 0")
    h.check(not failed(r3) and h.q(r3) == want, 'and a string holding the literal')
    h.cover('done')


def h_bad(h):
    """A digit outside the base never becomes part of the literal."""
    c = h.calc('Computing')
    b = h.choose('base', h.p('bases'))
    kind = {2: 'bin', 8: 'oct'}.get(b, b)
    if b in (2, 8) and h.choose('z', [False, True]):
        kind = b
    n = h.choose('before', [0, 1, 2])
    good = h.str('good', n, DIGITS[:b])
    hi = DIGITS[b:]
    bad = h.str('bad', 1, hi)
    point = h.choose('point', ['', '.']) if n > 0 else ''
    t = prefix(kind) + good + point + bad
    r = tryev(h, c, t)
    h.check(failed(r) or not isinstance(r, str), 'an error, or another number')
    if not failed(r):
        # whatever the text means, it is not the bad digit read as a digit
        v = h.q(r)
        w = positional(h, good, '', b)
        d = h.digit(bad, DIGITS)
        h.check(v != (w * b + d if not point else w + h.q(d, b)), 'a digit outside the base is not accepted')
    h.cover('done')


def read(h, t, b, pre):
    neg = t[0] == '-'
    body = t[1:] if neg else t
    h.check(body[:len(pre)] == pre, 'the text starts with the prefix of its base')
    body = body[len(pre):]
    parts = body.split('.')
    h.check(len(parts) <= 2, 'one point at most')
    for q in parts:
        h.check(len(q) > 0, 'digits on both sides of a point')
        for ch in q:
            h.check(ch in DIGITS[:b], 'only digits of the base')
    v = positional(h, parts[0], parts[1] if len(parts) == 2 else '', b)
    return (-v if neg else v), len(parts) == 2


def show(h, x, kind):
    c = h.calc('Computing')
    if kind in ('bin', 'oct', 'hex'):
        name = {'bin': 'binary', 'oct': 'octal', 'hex': 'hexadecimal'}[kind]
        r = tryev(h, c, kind + '(vx)' if h.p('func') else 'vx as ' + name, {'vx': x})
        h.check(not failed(r), 'a number can be shown in the base')
        return r.to_string(c)
    r = tryev(h, c, 'base(vx, %d)' % kind, {'vx': x})
    h.check(not failed(r), 'a number can be shown in the base')
    return r if isinstance(r, str) else r.to_string(c)


def h_show(h):
    """The displayed literal is the value, truncated by less than one unit in its last place, and reads back."""
    c = h.calc('Computing')
    h.opaque(False)
    kind, m, d = h.choose('base', h.p('cases'))
    b = radix(kind)
    p = h.choose('places', h.p('places'))
    c.number_prec_set(p)
    n = h.int('num', -m, m)
    den = h.choose('den', d)
    x, qx = h.lib('objects.number').Number(n, den), h.q(n, den)
    t = show(h, x, kind)
    v, isfrac = read(h, t, b, prefix(kind))
    unit = h.q(1) / b ** p
    if b == 10:
        h.check(2 * abs(qx - v) <= unit, 'base ten is shown as decimal text: rounded')
    elif qx >= 0:
        h.check(v >= 0 and v <= qx and qx < v + unit, 'truncated by less than one unit in the last place')
    else:
        h.check(v <= 0 and v >= qx and qx > v - unit, 'truncated by less than one unit in the last place')
    s = qx / unit
    if s == h.floor(s):
        h.check(v == qx, 'a finite expansion is shown in full')
        h.cover('finite')
    else:
        h.cover('truncated')
    r = tryev(h, c, t)
    h.check(not failed(r) and h.q(r) == v, 'the text reads back as the value it shows')
    h.check(h.q(x) == qx, 'the number itself is unchanged')


def h_relit(h):
    """Displaying a literal gives it back (up to letter case), leading zeros aside."""
    c = h.calc('Computing')
    h.opaque(False)
    kind = h.choose('base', h.p('bases'))
    b = radix(kind)
    pre = prefix(kind)
    neg = h.choose('neg', ['', '-'])
    whole = h.str('whole', h.p('w'), alphabet(b, True))
    h.assume(whole[0] != '0')
    frac = h.str('frac', h.choose('f', [0, h.p('f')]), alphabet(b, True))
    if len(frac) > 0:
        h.assume(frac[-1] != '0')
    t = neg + pre + whole + ('.' + frac if len(frac) > 0 else '')
    r = tryev(h, c, t)
    h.check(not failed(r), 'the literal is a number')
    h.check(r.to_string(c) == neg + pre + whole.upper() + ('.' + frac.upper() if len(frac) > 0 else ''), 'a literal is displayed as written')
    h.cover('done')


def h_outside(h):
    """Bases outside 2 to 36 have no digits: neither written nor shown."""
    c = h.calc('Computing')
    h.opaque(False)
    N = h.lib('objects.number')
    if h.choose('what', ['show', 'literal']) == 'show':
        b = h.choose('base', list(range(-3, 42)) + [100])
        r = tryev(h, c, 'base(vx, vb)', {'vx': N.Number(h.int('x', -h.p('m'), h.p('m'))), 'vb': N.Number(b)})
        h.check(failed(r) == (b < 2 or b > 36), 'exactly the bases from 2 to 36 can show a number')
    else:
        b = h.choose('base', [0, 1, 37, 38, 40, 99, 100])
        s = h.str('digits', (1, 2), DIGITS[:2] + '9Za')
        t = '%dz' % b + s
        if h.choose('string', [False, True]):
            r = tryev(h, c, "'" + t + "' + 0")
        else:
            r = tryev(h, c, t)
        h.check(failed(r), 'no literal of the base')
    h.cover('done')


DEN = [1, 2, 3, 7, 8, 10, 12, 64]
ALLB = list(range(2, 37))
HARNESSES = [
    dict(name='literal', fn=h_literal, quick={'bases': [('bin', 4, 3), ('BIN', 2, 1), ('OCT', 3, 2), ('hex', 3, 1), ('HEX', 3, 1), (3, 3, 2), (10, 2, 1), (36, 3, 1)]},
         thorough={'bases': [('bin', 6, 4), ('oct', 5, 3), ('hex', 4, 2)] + [(b, 3, 1) for b in ALLB]}, bounds='every digit string up to w.f digits in the listed bases', covers=['done']),
    dict(name='bad', fn=h_bad, quick={'bases': [2, 8, 9, 10, 35]}, thorough={'bases': list(range(2, 36))}, bounds='up to two digits of the base followed by one outside it', covers=['done']),
    dict(name='outside', fn=h_outside, quick={'m': 20}, thorough={'m': 200}, bounds='bases -3..41 and 100 for whole numbers up to m, literals of up to two digits', covers=['done']),
    dict(name='show', fn=h_show, quick={'cases': [('bin', 30, [1, 2, 3]), ('oct', 200, [1, 3, 16]), ('hex', 999, [1, 3]), (7, 99, [1, 2]), (10, 99, [3]), (36, 9999, [1])], 'places': [2], 'func': False},
         thorough={'cases': [('bin', 300, DEN), ('oct', 3000, DEN), ('hex', 9999, DEN), (3, 200, DEN), (7, 999, DEN), (10, 999, DEN), (16, 9999, DEN), (36, 99999, DEN)], 'places': [0, 1, 3], 'func': False},
         bounds='fractions up to (m, d) per base, the listed numbers of places', covers=['finite']),
    dict(name='func', fn=h_show, quick={'cases': [('bin', 15, [1, 3, 4]), ('oct', 20, [1, 2]), ('hex', 40, [1, 2])], 'places': [3], 'func': True},
         thorough={'cases': [('bin', 300, DEN), ('oct', 3000, DEN), ('hex', 9999, DEN)], 'places': [0, 1, 3], 'func': True},
         bounds='as show, through bin(), oct() and hex()', covers=['finite']),
    dict(name='relit', fn=h_relit, quick={'bases': ['hex', 36], 'w': 2, 'f': 1}, thorough={'bases': ['bin', 'oct', 'hex'] + ALLB, 'w': 3, 'f': 2}, bounds='digit strings of w and w.f digits', covers=['done']),
]
