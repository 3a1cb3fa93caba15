"""T02: string functions and comparisons match their definitions."""
from common import tryev, tryevu, failed, run, val, equal
LIBS = ['objects.number', 'objects.items', 'objects.exceptions']
CALCS = ['Computing']


def chars(s):
    """The characters of a string, as a list."""
    return [ch for ch in s]


def same(h, a, b):
    """Characters are equal (decided)."""
    return h.is_true(a == b)


def starts(h, s, t, i):
    """The characters t occur in the characters s at position i."""
    return i + len(t) <= len(s) and all(same(h, s[i + j], t[j]) for j in range(len(t)))


def cat(cs):
    out = ''
    for c in cs:
        out = out + c
    return out


def is_text(h, got, want, label):
    h.check(not failed(got) and type(got).__name__ != 'Number' and not isinstance(got, (bool, list)), label + ': a string')
    h.check(len(got) == len(want), label + ': length')
    h.check(got == want, label)


def h_concat(h):
    """Concatenation, repetition and length."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    s, t = h.str('s', (0, 2), "aB 1'"), h.str('t', (0, 2), "aB 1'")
    n = h.int('n', -1, 3)
    c.vars['vs'], c.vars['vt'], c.vars['vn'] = (s, None), (t, None), (N.Number(n), None)
    is_text(h, tryev(h, c, 'vs +$ vt'), cat(chars(s) + chars(t)), 'concatenation')
    got = tryev(h, c, 'length(vs +$ vt)')
    h.check(not failed(got) and h.q(got) == len(s) + len(t), 'length')
    got = tryev(h, c, 'vs *$ vn')
    k = max(0, n if isinstance(n, int) else [i for i in range(-1, 4) if h.is_true(n == i)][0])
    is_text(h, got, cat(chars(s) * k), 'repetition')
    h.cover('done')


def h_case(h):
    c = h.calc('Computing')
    s = h.str('s', (0, 3), 'aZz1 _é')
    c.vars['vs'] = (s, None)
    up = {'a': 'A', 'z': 'Z', 'é': 'É'}
    lo = {'Z': 'z'}
    for f, m in (('upper', up), ('lower', lo)):
        want = ''
        for ch in s:
            for k in m:
                if same(h, ch, k):
                    want = want + m[k]
                    break
            else:
                want = want + ch
        is_text(h, tryev(h, c, f + '(vs)'), want, f)
    h.cover('done')


def h_strip(h):
    c = h.calc('Computing')
    s, t = h.str('s', (0, h.p('n')), 'ab '), h.str('t', (0, 2), 'ab ')
    c.vars['vs'], c.vars['vt'] = (s, None), (t, None)
    cs = chars(s)
    inset = [any(same(h, x, y) for y in t) for x in cs]
    i = 0
    while i < len(cs) and inset[i]:
        i += 1
    j = len(cs)
    while j > 0 and inset[j - 1]:
        j -= 1
    f = h.choose('f', ['lstrip', 'rstrip', 'strip'])
    want = {'lstrip': cs[i:], 'rstrip': cs[:j], 'strip': cs[i:max(i, j)]}[f]
    is_text(h, tryev(h, c, f + '(vs, vt)'), cat(want), f)
    h.cover(f)


def h_find(h):
    """find: the first position, or -1."""
    c = h.calc('Computing')
    s, t = h.str('s', (0, h.p('n')), 'aAb'), h.str('t', (0, 2), 'aAb')
    c.vars['vs'], c.vars['vt'] = (s, None), (t, None)
    cs, ct = chars(s), chars(t)
    want = -1
    for i in range(len(cs) - len(ct) + 1):
        if starts(h, cs, ct, i):
            want = i
            break
    got = tryev(h, c, 'find(vs, vt)')
    h.check(not failed(got) and h.q(got) == want, 'the first position')
    h.cover('found' if want >= 0 else 'not found')


def h_replace(h):
    """replace: every non-overlapping occurrence from the left."""
    c = h.calc('Computing')
    s, t, r = h.str('s', (0, h.p('n')), 'aAb'), h.str('t', (1, 2), 'aAb'), h.str('r', (0, 2), 'ac')
    for n, v in (('vs', s), ('vt', t), ('vr', r)):
        c.vars[n] = (v, None)
    cs, ct = chars(s), chars(t)
    out, i, hits = [], 0, 0
    while i < len(cs):
        if starts(h, cs, ct, i):
            out += chars(r)
            i += len(ct)
            hits += 1
        else:
            out.append(cs[i])
            i += 1
    is_text(h, tryev(h, c, 'replace(vs, vt, vr)'), cat(out), 'replace')
    h.cover('several' if hits > 1 else 'one' if hits else 'none')


def h_split(h):
    """split and join are inverse to each other."""
    c = h.calc('Computing')
    s, t = h.str('s', (0, h.p('n')), 'a,b'), h.str('t', (1, 2), 'a,b')
    c.vars['vs'], c.vars['vt'] = (s, None), (t, None)
    cs, ct = chars(s), chars(t)
    parts, cur, i = [], [], 0
    while i < len(cs):
        if starts(h, cs, ct, i):
            parts.append(cur)
            cur = []
            i += len(ct)
        else:
            cur.append(cs[i])
            i += 1
    parts.append(cur)
    got = tryev(h, c, 'split(vs, vt)')
    h.check(not failed(got) and isinstance(got, list) and len(got) == len(parts), 'the number of parts')
    for g, w in zip(got, parts):
        h.check(g.unit is None, 'no unit')
        is_text(h, g.value, cat(w), 'part')
    is_text(h, tryev(h, c, 'join(split(vs, vt), vt)'), s, 'joined again')
    h.cover('parts' if len(parts) > 1 else 'whole')


def h_join(h):
    c = h.calc('Computing')
    n = h.choose('n', [1, 2, 3])
    parts = [h.str('p%d' % i, (0, 1), 'a,b') for i in range(n)]
    d = h.str('d', (0, 2), ',-')
    for i, p in enumerate(parts):
        c.vars['vp' + 'abc'[i]] = (p, None)
    c.vars['vd'] = (d, None)
    arr = '[' + ', '.join('vp' + 'abc'[i] for i in range(n)) + ']'
    form = h.choose('form', ['join({}, vd)', 'join({})'])
    want = chars(parts[0])
    for p in parts[1:]:
        want += (chars(d) if 'vd' in form else []) + chars(p)
    is_text(h, tryev(h, c, form.format(arr)), cat(want), 'join')
    h.cover('done')


def h_substr(h):
    """substr: from the start position (from the end if negative) to the end position inclusive (from the end if negative)."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    s = h.str('s', (0, h.p('n')), 'abc')
    L = len(s)
    a = h.int('a', -h.p('n') - 1, h.p('n') + 1)
    c.vars['vs'], c.vars['va'] = (s, None), (N.Number(a), None)
    form = h.choose('form', ['substr(vs, va)', 'substr(vs, va, vb)'])
    av = [i for i in range(-h.p('n') - 1, h.p('n') + 2) if h.is_true(a == i)][0]
    start = av if av >= 0 else max(0, L + av)
    last = L - 1
    if 'vb' in form:
        b = h.int('b', -h.p('n') - 2, h.p('n') + 1)
        c.vars['vb'] = (N.Number(b), None)
        bv = [i for i in range(-h.p('n') - 2, h.p('n') + 2) if h.is_true(b == i)][0]
        last = bv if bv >= 0 else L + bv
    want = cat(chars(s)[i] for i in range(L) if start <= i <= last)
    is_text(h, tryev(h, c, form), want, 'substr')
    h.cover('some' if len(want) else 'none')


LOWER = {'A': 'a', 'B': 'b'}


def h_compare(h):
    """Alphabetical comparison, one total order; the caseless one compares lower case."""
    c = h.calc('Computing')
    s, t = h.str('s', (0, h.p('n')), 'aAbB1'), h.str('t', (0, h.p('n')), 'aAbB1')
    c.vars['vs'], c.vars['vt'] = (s, None), (t, None)
    caseless = h.choose('caseless', [False, True])

    def key(ch):
        for k in 'aAbB1':
            if same(h, ch, k):
                return ord(LOWER.get(k, k) if caseless else k)

    a, b = [key(x) for x in s], [key(x) for x in t]
    suffix = '~' if caseless else '$'
    for op, want in (('<', a < b), ('>', a > b), ('<=', a <= b), ('>=', a >= b), ('==', a == b), ('!=', a != b)):
        got = tryev(h, c, 'vs ' + op + suffix + ' vt')
        h.check(not failed(got) and h.is_true(got) == want, 'comparison')
    h.cover('less' if a < b else 'equal' if a == b else 'more')


# calls where any operand may be a number, with two operand places
NUMERIC = ['{} +$ {}', '{} *$ 2', 'length({})', 'lower({})', 'upper({})', 'lstrip({}, {})', 'rstrip({}, {})', 'strip({}, {})', 'find({}, {})', "replace({}, {}, 'x')", "replace('1a1', 1, {})", 'substr({}, 0)', 'substr({}, 0, 0)',
           'substr({}, 0, -1)', 'substr({}, -1, -1)', 'join([{}, {}])', "join(['a', {}, 'b'], {})", 'split({}, {})', '{} <$ {}', '{} >$ {}', '{} <=$ {}', '{} >=$ {}', '{} ==$ {}', '{} !=$ {}', '{} <~ {}', '{} >~ {}', '{} <=~ {}', '{} >=~ {}',
           '{} ==~ {}', '{} !=~ {}']


def h_numbers(h):
    """A number given where a string is expected is used as its displayed text."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    h.opaque(False)
    form = h.choose('form', NUMERIC)
    texts = []
    for n in ('x', 'y')[:form.count('{}')]:
        k = h.choose('kind_' + n, h.p('kinds'))
        if k != 'whole':
            v = h.choose(n, [-1, 1, 11, 105])
        if k == 'whole':
            v = h.int(n + 'v', 0, 9)
            c.vars['v' + n] = (N.Number(v), None)
            t = [str(i) for i in range(10) if h.is_true(v == i)][0]
        elif k == 'fraction':
            c.vars['v' + n] = (N.Number(v, 4), None)
            t = {-1: '-0.25', 1: '0.25', 11: '2.75', 105: '26.25'}[v]
        elif k == 'percentage':
            c.vars['v' + n] = (N.Number(v), None)
            h.check(not failed(tryev(h, c, 'v%s = v%s as percentage' % (n, n))), 'percentage')
            t = str(v * 100) + '%'
        else:
            c.vars['v' + n] = (N.Number(v), None)
            t = str(v)
        c.vars['t' + n] = (t, None)
        texts.append(n)
    got = run(h, c, form.format(*['v' + n for n in texts]))
    want = run(h, c, form.format(*['t' + n for n in texts]))
    equal(h, got, want, 'a number is used as its text')
    h.check(got[0] != 'error' or form.startswith('split'), 'a number has a text')
    h.cover('done')


HARNESSES = [
    dict(name='concat', fn=h_concat, quick={}, thorough={}, bounds='strings of up to two characters, counts -1 to 3', covers=['done']),
    dict(name='case', fn=h_case, quick={}, thorough={}, bounds='strings of up to three of 7 representative characters', covers=['done']),
    dict(name='strip', fn=h_strip, quick={'n': 4}, thorough={'n': 5}, bounds='strings of up to 4 (5) characters, sets of up to two', covers=['lstrip', 'rstrip', 'strip']),
    dict(name='find', fn=h_find, quick={'n': 5}, thorough={'n': 6}, bounds='strings of up to 5 (6) characters, substrings of up to two', covers=['found', 'not found']),
    dict(name='replace', fn=h_replace, quick={'n': 5}, thorough={'n': 6}, bounds='strings of up to 5 (6) characters, substrings of up to two', covers=['several', 'one', 'none']),
    dict(name='split', fn=h_split, quick={'n': 5}, thorough={'n': 6}, bounds='strings of up to 5 (6) characters, delimiters of up to two', covers=['parts', 'whole']),
    dict(name='join', fn=h_join, quick={}, thorough={}, bounds='up to three parts of up to one character', covers=['done']),
    dict(name='substr', fn=h_substr, quick={'n': 4}, thorough={'n': 5}, bounds='strings of up to 4 (5) characters, positions a little beyond them', covers=['some', 'none']),
    dict(name='compare', fn=h_compare, quick={'n': 2}, thorough={'n': 3}, bounds='strings of up to 2 (3) characters', covers=['less', 'equal', 'more']),
    dict(name='numbers', fn=h_numbers, quick={'kinds': ['whole', 'fraction']}, thorough={'kinds': ['whole', 'fraction', 'percentage', 'integer']}, bounds='digits, quarters and percentages', covers=['done']),
]
