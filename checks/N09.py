"""N09: a numerical representation changes how a number looks, never its value."""
from common import tryev, tryevu, failed, setvars
LIBS = ['objects.number']
CALCS = ['Computing']
DIG = '0123456789'
REPS = ['decimal', 'percentage', 'scientific', 'binary', 'octal', 'hexadecimal']
FUNCS = ['dec', 'scientific', 'bin', 'oct', 'hex']


def decimal_value(h, whole, frac):
    v = h.q(0)
    for ch in whole + frac:
        v = v * 10 + h.digit(ch, DIG)
    return v / h.q(10) ** len(frac)


def h_literal(h):
    """n% is n/100 and aEb is a*10^b, exactly."""
    c = h.calc('Computing')
    h.opaque(False)
    neg = h.choose('neg', ['', '-'])
    whole = h.str('whole', (1, h.p('w')), DIG)
    frac = h.str('frac', (0, h.p('f')), DIG)
    num = neg + whole + ('.' + frac if len(frac) > 0 else '')
    v = decimal_value(h, whole, frac)
    if neg:
        v = -v
    kind = h.choose('kind', ['%', 'e', 'E'])
    if kind == '%':
        t, want = num + '%', v / 100
    else:
        e = h.choose('exp', h.p('exps'))
        t, want = num + kind + str(e), (v * 10 ** e if e >= 0 else v / 10 ** -e)
    r = tryev(h, c, t)
    h.check(not failed(r), 'the literal is a number')
    h.check(h.q(r) == want, 'the literal denotes its value')
    r = tryev(h, c, "0 + '" + t + "'")
    h.check(not failed(r) and h.q(r) == want, 'and so does a string holding it')
    h.cover('done')


def h_as(h):
    """"as" and the representation functions keep the value and the unit."""
    c = h.calc('Computing')
    how = h.choose('how', [('as ' + r) for r in REPS] + FUNCS)
    src = h.choose('from', [None] + REPS[1:])
    unit = h.choose('unit', ['', ' meters'])
    x, qx = h.number('x', -h.p('m'), h.p('m'), h.p('m'))
    t = 'vx' if src is None else '(vx as ' + src + ')'
    setvars(c, {'vx': x})
    if unit and src is not None:
        t = '(' + t + unit + ')'
    elif unit:
        t = '(vx' + unit + ')'
    r, u = tryevu(h, c, t + ' ' + how if how.startswith('as') else how + '(' + t + ')')
    h.check(not failed(r), 'a number has every representation')
    h.check(h.q(r) == qx, 'the value is kept')
    h.check((u is None) == (unit == ''), 'the unit is kept')
    h.check(h.q(x) == qx and x.number_cast is None, 'the operand keeps its value and representation')
    h.cover('done')


def h_text(h):
    """The text in percentage and scientific form denotes the value, correctly rounded."""
    c = h.calc('Computing')
    h.opaque(False)
    rep, m, d = h.choose('rep', h.p('cases'))
    p = h.choose('places', h.p('places'))
    c.number_prec_set(p)
    n = h.int('num', -m, m)
    N = h.lib('objects.number')
    x, qx = N.Number(n, d), h.q(n, d)
    r = tryev(h, c, 'vx as ' + rep, {'vx': x})
    h.check(not failed(r), 'a number has the representation')
    t = r.to_string(c)
    h.check(h.q(r) == qx, 'showing a number does not change it')
    h.check(r.to_string(c) == t, 'showing it again gives the same text')
    r2 = tryev(h, c, t)
    h.check(not failed(r2), 'the text is a literal')
    v = h.q(r2)
    if rep == 'percentage':
        h.check(t[-1] == '%', 'a percent sign')
        unit = h.q(1) / 10 ** (p + 2)
    else:
        h.check('E' in t, 'an exponent')
        a = t.split('E')
        h.check(len(a) == 2, 'one exponent')
        unit = h.q(1) / 10 ** p
        e = int(a[1])
        unit = unit * 10 ** e if e >= 0 else unit / 10 ** -e
        mant = v if e == 0 else (v / h.q(10) ** e if e > 0 else v * h.q(10) ** -e)
        h.check(qx == 0 or (abs(mant) >= 1 and abs(mant) < 10), 'one digit before the point')
    h.check(2 * abs(qx - v) <= unit, 'the text is the value rounded to its places')
    s = qx / unit
    if s == h.floor(s):
        h.check(v == qx, 'a finitely representable value reads back exactly')
        h.cover('exact')
    else:
        h.cover('rounded')


def h_places(h):
    """scientific(x, p) is x rounded to p places of its mantissa."""
    c = h.calc('Computing')
    h.opaque(False)
    p = h.choose('p', h.p('places'))
    d = h.choose('den', h.p('dens'))
    n = h.int('num', 1, h.p('m'))
    neg = h.choose('neg', [False, True])
    x, qx = h.lib('objects.number').Number(-n if neg else n, d), h.q(n, d)
    r = tryev(h, c, 'scientific(vx, %d)' % p, {'vx': x})
    h.check(not failed(r), 'defined')
    v = h.q(r)
    if neg:
        v = -v
    u = h.q(1)
    while u * 10 <= qx:
        u = u * 10
    while u > qx:
        u = u / 10
    u = u / 10 ** p
    h.check(2 * abs(qx - v) <= u, 'nearest')
    h.check(v / u == h.floor(v / u), 'no more places')
    h.cover('done')


def suffix(h, t, rep):
    b = t[1:] if t[0] == '-' else t
    pre = {'binary': '0b', 'octal': '0o', 'hexadecimal': '0x'}.get(rep)
    if pre:
        return b[:2] == pre
    if rep == 'percentage':
        return b[-1] == '%'
    if rep == 'scientific':
        return 'E' in b
    for ch in b:
        if ch not in '0123456789.':
            return False
    return True


def h_ops(h):
    """An operator gives the same value whatever the representations; the result is shown like its first operand that has one."""
    c = h.calc('Computing')
    op = h.choose('op', h.p('ops'))
    ra, rb = h.choose('reps', h.p('reps'))
    whole = op in ('<<', '>>', '&', '|', '^^')
    m = h.p('m')
    b, qb = h.number('b', 1 if op in '/\\%' else (0 if whole else -m), m if op not in ('^', '<<', '>>') else 3, 1)
    a, qa = h.number('a', 0 if whole else -m, m, 1)
    setvars(c, {'va': a, 'vb': b})
    plain = tryev(h, c, 'va ' + op + ' vb')
    ta = 'va' if ra is None else '(va as ' + ra + ')'
    tb = 'vb' if rb is None else '(vb as ' + rb + ')'
    r = tryev(h, c, ta + ' ' + op + ' ' + tb)
    h.check(failed(r) == failed(plain), 'fails in every representation or in none')
    if failed(r):
        h.cover('error')
        return
    if isinstance(plain, bool):
        h.check(r == plain, 'the same truth value')
        return
    h.check(h.q(r) == h.q(plain), 'the same value as with decimal operands')
    if h.p('look'):
        h.opaque(False)
        want = ra if ra not in (None, 'decimal') else rb
        h.check(suffix(h, r.to_string(c), want), 'shown like the first operand that has a representation')
    h.cover('done')


def h_cmp(h):
    """Comparisons see values only."""
    c = h.calc('Computing')
    op = h.choose('op', ['<', '<=', '==', '!=', '>', '>='])
    ra, rb = h.choose('reps', [('binary', 'percentage'), ('scientific', 'hexadecimal'), ('octal', 'decimal')])
    a, qa = h.number('a', -h.p('m'), h.p('m'), h.p('m'))
    b, qb = h.number('b', -h.p('m'), h.p('m'), h.p('m'))
    r = tryev(h, c, '(va as ' + ra + ') ' + op + ' (vb as ' + rb + ')', {'va': a, 'vb': b})
    h.check(not failed(r), 'defined')
    want = {'<': qa < qb, '<=': qa <= qb, '==': qa == qb, '!=': qa != qb, '>': qa > qb, '>=': qa >= qb}[op]
    h.check(r == want, 'the values are compared')
    h.cover('done')


ALLREPS = [(a, b) for a in [None] + REPS for b in [None] + REPS]
HARNESSES = [
    dict(name='literal', fn=h_literal, quick={'w': 2, 'f': 2, 'exps': [-3, 0, 2, 12]}, thorough={'w': 4, 'f': 3, 'exps': list(range(-12, 13)) + [30, -30]}, bounds='up to w.f digits, the listed exponents', covers=['done']),
    dict(name='as', fn=h_as, quick={'m': 10 ** 6}, thorough={'m': 10 ** 12}, bounds='fractions up to m', covers=['done']),
    dict(name='text', fn=h_text, quick={'cases': [('percentage', 999, 1000), ('percentage', 99, 7), ('scientific', 9999, 1), ('scientific', 99, 8), ('scientific', 99, 3)], 'places': [2]},
         thorough={'cases': [(r, 9999, d) for r in ('percentage', 'scientific') for d in (1, 2, 3, 7, 8, 1000)], 'places': [0, 1, 2, 4, 30]}, bounds='n/d for all n up to m and the listed d', covers=['exact', 'rounded']),
    dict(name='places', fn=h_places, quick={'m': 9999, 'places': [0, 2], 'dens': [1, 1000]}, thorough={'m': 99999, 'places': [0, 1, 2, 3, 5], 'dens': [1, 3, 7, 1000]}, bounds='n/d up to m', covers=['done']),
    dict(name='ops', fn=h_ops, quick={'m': 10 ** 3, 'look': False, 'ops': ['+', '-', '*', '/', '%', '\\', '<<', '&'], 'reps': [('binary', 'hexadecimal'), ('percentage', 'scientific'), ('octal', None), (None, 'hexadecimal')]},
         thorough={'m': 10 ** 6, 'look': False, 'ops': ['+', '-', '*', '/', '%', '\\', '^', '<<', '>>', '&', '|', '^^'], 'reps': ALLREPS}, bounds='whole numbers up to m', covers=['done']),
    dict(name='look', fn=h_ops, quick={'m': 9, 'look': True, 'ops': ['+', '-', '*'], 'reps': [('binary', 'hexadecimal'), ('percentage', 'scientific'), ('octal', None), (None, 'hexadecimal'), ('scientific', 'binary')]},
         thorough={'m': 12, 'look': True, 'ops': ['+', '-', '*', '\\', '%', '&'], 'reps': ALLREPS}, bounds='whole numbers up to m', covers=['done']),
    dict(name='cmp', fn=h_cmp, quick={'m': 10 ** 6}, thorough={'m': 10 ** 9}, bounds='fractions up to m', covers=['done']),
]
