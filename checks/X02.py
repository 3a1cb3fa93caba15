"""X02: regular-expression operators and functions match as documented.

The oracle is an independent matcher: a pattern is a small tree from which both the pattern text and, by a generator of
match ends in order of preference, its meaning are derived."""
from common import tryev, failed
LIBS = ['objects.number']
CALCS = ['Computing']
ALPHA = 'aAb1 \n_'


# A pattern tree: ('set', text, chars, negated) | ('seq', [..]) | ('alt', [..]) | ('rep', tree, lo, hi, lazy, text) |
# ('group', tree) | ('plain', tree) non-capturing | ('at', text, kind) | ('ref', n) | ('look', tree, negated)
def S(text, chars, neg=False):
    return ('set', text, chars, neg)


A, B, ONE = S('a', 'a'), S('b', 'b'), S('1', '1')
DOT = S('.', '\n', True)
AB, NOTA = S('[ab]', 'ab'), S('[^a]', 'a', True)
RANGE = S('[a-z]', 'ab')
DIGIT, NODIGIT = S('\\d', '1'), S('\\D', '1', True)
WORD, NOWORD = S('\\w', 'aAb1_'), S('\\W', 'aAb1_', True)
SPACE, NOSPACE = S('\\s', ' \n'), S('\\S', ' \n', True)
START, END, WB, NWB = ('at', '^', '^'), ('at', '$', '$'), ('at', '\\b', 'b'), ('at', '\\B', 'B')


def Q(t, q):
    lo, hi = {'*': (0, 99), '+': (1, 99), '?': (0, 1), '{2}': (2, 2), '{1,2}': (1, 2), '{2,}': (2, 99)}[q[:-1] if len(q) > 1 and q.endswith('?') else q]
    return ('rep', t, lo, hi, len(q) > 1 and q.endswith('?'), q)


def seq(*ts):
    return ('seq', ts)


def alt(*ts):
    return ('alt', ts)


def G(t):
    return ('group', t)


def P(t):
    return ('plain', t)


def text(t):
    k = t[0]
    if k in ('set', 'at'):
        return t[1]
    if k == 'seq':
        return ''.join(text(x) for x in t[1])
    if k == 'alt':
        return '|'.join(text(x) for x in t[1])
    if k == 'rep':
        return text(t[1]) + t[5]
    if k == 'group':
        return '(' + text(t[1]) + ')'
    if k == 'plain':
        return '(?:' + text(t[1]) + ')'
    if k == 'ref':
        return '\\%d' % t[1]
    if k == 'look':
        return ('(?!' if t[2] else '(?=') + text(t[1]) + ')'


class Match:
    """Finds matches of a tree in a list of characters; decides characters one by one."""

    def __init__(self, h, tree, s):
        self.h, self.tree, self.cs = h, tree, [c for c in s]
        self.known = {}
        self.numbers = {}
        self.number(tree)

    def number(self, t):
        if t[0] == 'group':
            self.numbers[id(t)] = len(self.numbers) + 1
        if t[0] in ('seq', 'alt'):
            for x in t[1]:
                self.number(x)
        elif t[0] in ('rep', 'group', 'plain', 'look'):
            self.number(t[1])

    def is_one(self, i, chars):
        if (i, chars) not in self.known:
            r = False
            for c in chars:
                if self.h.is_true(self.cs[i] == c):
                    r = True
                    break
            self.known[(i, chars)] = r
        return self.known[(i, chars)]

    def ends(self, t, i, gs):
        """(end, groups) of every way t matches at i, best first."""
        k, n = t[0], len(self.cs)
        if k == 'set':
            if i < n and self.is_one(i, t[2]) != t[3]:
                yield i + 1, gs
        elif k == 'at':
            if t[2] == '^':
                ok = i == 0
            elif t[2] == '$':
                ok = i == n or (i == n - 1 and self.is_one(i, '\n'))
            else:
                w = [0 <= j < n and self.is_one(j, 'aAb1_') for j in (i - 1, i)]
                ok = (w[0] != w[1]) == (t[2] == 'b')
            if ok:
                yield i, gs
        elif k == 'seq':
            if not t[1]:
                yield i, gs
            else:
                for j, g in self.ends(t[1][0], i, gs):
                    for r in self.ends(('seq', t[1][1:]), j, g):
                        yield r
        elif k == 'alt':
            for x in t[1]:
                for r in self.ends(x, i, gs):
                    yield r
        elif k == 'rep':
            for r in self.repeat(t, i, gs, 0):
                yield r
        elif k == 'group':
            for j, g in self.ends(t[1], i, gs):
                g = dict(g)
                g[self.numbers[id(t)]] = (i, j)
                yield j, g
        elif k == 'plain':
            for r in self.ends(t[1], i, gs):
                yield r
        elif k == 'ref':
            if t[1] in gs:
                a, b = gs[t[1]]
                if i + b - a <= n and all(self.h.is_true(self.cs[a + x] == self.cs[i + x]) for x in range(b - a)):
                    yield i + b - a, gs
        elif k == 'look':
            if any(True for _ in self.ends(t[1], i, gs)) != t[2]:
                yield i, gs

    def repeat(self, t, i, gs, done):
        _, x, lo, hi, lazy, _ = t
        if lazy and done >= lo:
            yield i, gs
        if done < hi:
            for j, g in self.ends(x, i, gs):
                if j > i or done < lo:
                    for r in self.repeat(t, j, g, done + 1):
                        yield r
        if not lazy and done >= lo:
            yield i, gs

    def at(self, i, nonempty=False):
        for j, g in self.ends(self.tree, i, {}):
            if j > i or not nonempty:
                return i, j, g
        return None

    def all(self):
        """All occurrences from the left, not overlapping, empty ones not directly after another empty one."""
        out, i, empty = [], 0, False
        while i <= len(self.cs):
            m = self.at(i, empty)
            empty = False
            if m is None:
                i += 1
                continue
            out.append(m)
            empty = m[0] == m[1]
            i = m[1]
        return out


def cat(cs):
    out = ''
    for c in cs:
        out = out + c
    return out


SMALL = [A, AB, DOT, NOTA, DIGIT, NODIGIT, WORD, NOWORD, SPACE, NOSPACE, RANGE,
         Q(A, '*'), Q(A, '+'), Q(A, '?'), Q(A, '{2}'), Q(A, '*?'), Q(A, '+?'), Q(A, '??'), Q(A, '{1,2}'), Q(A, '{2,}'), Q(DOT, '*'), Q(NOTA, '+'),
         seq(A, B), seq(START, A), seq(A, END), seq(WB, A), seq(A, WB), seq(NWB, A), alt(A, B), alt(A, seq(A, B)), alt(seq(A, B), A),
         seq(START, Q(A, '*'), END), seq(A, Q(DOT, '*?'), B), seq(A, Q(DOT, '*'), B), Q(P(alt(A, B)), '+'), Q(P(seq(A, B)), '*'),
         seq(A, ('look', B, False)), seq(A, ('look', B, True)), seq(Q(A, '?'), A), seq(P(alt(A, seq(A, B))), Q(ONE, '?')),
         START, END, WB, seq(START, END), ('seq', ())]
GROUPED = [G(A), seq(G(A), B), seq(A, G(B)), G(Q(A, '*')), seq(G(Q(A, '?')), B), alt(G(A), B), Q(G(alt(A, B)), '+'), G(seq(A, G(B))),
           seq(G(AB), ('ref', 1)), seq(G(A), G(Q(B, '?'))), seq(Q(G(A), '?'), B)]


def ngroups(t):
    return len(Match(None, t, '').numbers)


def subject(h, alpha=ALPHA):
    return h.str('s', (0, h.p('n')), alpha)


def setup(h, patterns):
    c = h.calc('Computing')
    t = patterns[h.choose('pattern', list(range(len(patterns))))]
    s = subject(h)
    c.vars['vs'], c.vars['vp'] = (s, None), (text(t), None)
    return c, t, s, Match(h, t, s)


def is_text(h, got, want, label):
    h.check(not failed(got) and type(got).__name__ != 'Number' and not isinstance(got, (bool, list)), label + ': a string')
    h.check(len(got) == len(want), label + ': length')
    h.check(got == want, label)


def is_list(h, got, want, label):
    h.check(not failed(got) and isinstance(got, list), label + ': an array')
    h.check(len(got) == len(want), label + ': number of elements')
    for g, w in zip(got, want):
        is_text(h, g.value, w, label + ': element')
        h.check(g.unit is None, label + ': no unit')


def h_match(h):
    """=~ and !~ : an occurrence anywhere in the text."""
    c, t, s, m = setup(h, SMALL + GROUPED)
    want = any(m.at(i) is not None for i in range(len(m.cs) + 1))
    for op, w in (('=~', want), ('!~', not want)):
        got = tryev(h, c, 'vs %s vp' % op)
        h.check(not failed(got) and isinstance(got, bool), op + ': a boolean')
        h.check(got == w, op)
    h.cover('match' if want else 'none')


def h_count(h):
    c, t, s, m = setup(h, SMALL + GROUPED)
    got = tryev(h, c, 'regexcount(vs, vp)')
    h.check(not failed(got) and type(got).__name__ == 'Number', 'a number')
    h.check(h.q(got) == len(m.all()), 'number of occurrences')
    h.cover('done')


def h_get(h):
    c, t, s, m = setup(h, SMALL)
    want = [cat(m.cs[a:b]) for a, b, _ in m.all()]
    is_list(h, tryev(h, c, 'regexget(vs, vp)'), want, 'all')
    k = h.choose('k', [1, 2, 3, 5])
    got = tryev(h, c, 'regexget(vs, vp, %d)' % k)
    if k <= len(want):
        is_text(h, got, want[k - 1], 'one')
        h.cover('one')
    else:
        h.check(failed(got), 'no such occurrence')
        h.cover('missing')


def h_get_group(h):
    """With one group: what the group matched."""
    pats = [t for t in GROUPED if ngroups(t) == 1]
    c, t, s, m = setup(h, pats)
    want = [cat(m.cs[slice(*g[1])]) if 1 in g else '' for a, b, g in m.all()]
    is_list(h, tryev(h, c, 'regexget(vs, vp)'), want, 'groups')
    got = tryev(h, c, 'regexget(vs, vp, 1)')
    if want:
        is_text(h, got, want[0], 'first group')
    else:
        h.check(failed(got), 'no such occurrence')
    h.cover('done')


def h_split(h):
    c, t, s, m = setup(h, SMALL)
    want, p = [], 0
    for a, b, _ in m.all():
        want.append(cat(m.cs[p:a]))
        p = b
    want.append(cat(m.cs[p:]))
    is_list(h, tryev(h, c, 'regexsplit(vs, vp)'), want, 'split')
    h.cover('done')


def h_sub(h):
    c, t, s, m = setup(h, SMALL + GROUPED)
    r = h.str('r', (0, 2), 'aZ1')
    c.vars['vr'] = (r, None)
    how = h.choose('how', ['all', 'first'])
    out, p = '', 0
    for a, b, _ in (m.all() if how == 'all' else m.all()[:1]):
        out = out + cat(m.cs[p:a]) + r
        p = b
    out = out + cat(m.cs[p:])
    is_text(h, tryev(h, c, 'regexsub(vs, vp, vr)' if how == 'all' else 'regexsub(vs, vp, vr, 1)'), out, how)
    h.cover(how)


def h_template(h):
    """The replacement refers to groups."""
    c, t, s, m = setup(h, GROUPED)
    tpl = h.choose('template', ['<\\1>', '\\g<0>\\g<0>', 'x\\1\\1'])
    c.vars['vr'] = (tpl, None)
    out, p = '', 0
    for a, b, g in m.all():
        out = out + cat(m.cs[p:a])
        one = cat(m.cs[slice(*g[1])]) if 1 in g else ''
        whole = cat(m.cs[a:b])
        out = out + {'<\\1>': '<' + one + '>', '\\g<0>\\g<0>': whole + whole, 'x\\1\\1': 'x' + one + one}[tpl]
        p = b
    out = out + cat(m.cs[p:])
    is_text(h, tryev(h, c, 'regexsub(vs, vp, vr)'), out, 'template')
    h.cover('done')


def h_literal(h):
    """The pattern is any text of ordinary characters."""
    c = h.calc('Computing')
    s, p = h.str('s', (0, h.p('n')), 'abA'), h.str('pat', (0, 2), 'abA')
    c.vars['vs'], c.vars['vp'] = (s, None), (p, None)
    cs, ps = [x for x in s], [x for x in p]
    hit = [i + len(ps) <= len(cs) and all(h.is_true(cs[i + j] == ps[j]) for j in range(len(ps))) for i in range(len(cs) + 1)]
    got = tryev(h, c, 'vs =~ vp')
    h.check(not failed(got) and got == any(hit), '=~')
    got = tryev(h, c, 'vs !~ vp')
    h.check(not failed(got) and got == (not any(hit)), '!~')
    n = i = 0
    while i <= len(cs):
        if hit[i]:
            n += 1
        i += len(ps) if hit[i] and ps else 1
    got = tryev(h, c, 'regexcount(vs, vp)')
    h.check(not failed(got) and h.q(got) == n, 'number of occurrences')
    h.cover('done')


def h_numbers(h):
    """A number given as the text stands for its displayed text."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    n = h.int('n', -h.p('m'), h.p('m'))
    c.vars['vn'] = (N.Number(n), None)
    neg = h.is_true(n < 0)
    k = -n if neg else n
    two = h.is_true(k >= 10)
    for pat, want in (('^-', neg), ('^-?\\d$', not two), ('\\d\\d', two), ('0', h.is_true(k % 10 == 0)), ('^7', not neg and (h.is_true(k == 7) or (two and h.is_true(k // 10 == 7))))):
        c.vars['vp'] = (pat, None)
        got = tryev(h, c, 'vn =~ vp')
        h.check(not failed(got) and got == want, pat)
        got = tryev(h, c, 'vn !~ vp')
        h.check(not failed(got) and got == (not want), 'not ' + pat)
    got = tryev(h, c, "regexcount(vn, '[0-9]')")
    h.check(not failed(got) and h.q(got) == (2 if two else 1), 'digits')
    h.cover('done')


def h_array(h):
    """Element by element on an array of texts."""
    c = h.calc('Computing')
    s, u = h.str('s', (0, 2), 'ab'), h.str('u', (0, 2), 'ab')
    c.vars['vs'], c.vars['vu'] = (s, None), (u, None)
    t = h.choose('op', ['=~', '!~'])
    got = tryev(h, c, "[vs, vu] %s '^a'" % t)
    h.check(not failed(got) and isinstance(got, list) and len(got) == 2, 'an array')
    for g, x in zip(got, (s, u)):
        starts = len(x) > 0 and h.is_true(x[0] == 'a')
        h.check(isinstance(g.value, bool) and g.value == (starts == (t == '=~')), 'element')
    h.cover('done')


def h_bad(h):
    """A text that is no pattern is an error."""
    c = h.calc('Computing')
    c.vars['vs'] = (h.str('s', (0, 1), 'ab'), None)
    c.vars['vp'] = (h.choose('pattern', ['(', ')', '[', '*', 'a**', '(?', '[b-a]', '\\', 'a{2,1}', '(a)\\2']), None)
    for e in ('vs =~ vp', 'vs !~ vp', 'regexget(vs, vp)', 'regexget(vs, vp, 1)', 'regexsplit(vs, vp)', "regexsub(vs, vp, 'x')", "regexsub(vs, vp, 'x', 1)", 'regexcount(vs, vp)'):
        h.check(failed(tryev(h, c, e)), e)
    c.vars['vp'] = ('a', None)
    for r in ('\\1', '\\g<x>', '\\'):
        c.vars['vr'] = (r, None)
        h.check(failed(tryev(h, c, "regexsub('a', vp, vr)")), 'no such group')
    h.cover('done')


B3 = 'texts of up to n of 7 representative characters, listed patterns'
HARNESSES = [
    dict(name='match', fn=h_match, quick={'n': 4}, thorough={'n': 5}, bounds=B3, covers=['match', 'none']),
    dict(name='count', fn=h_count, quick={'n': 4}, thorough={'n': 5}, bounds=B3, covers=['done']),
    dict(name='get', fn=h_get, quick={'n': 3}, thorough={'n': 4}, bounds=B3, covers=['one', 'missing']),
    dict(name='get_group', fn=h_get_group, quick={'n': 4}, thorough={'n': 5}, bounds=B3, covers=['done']),
    dict(name='split', fn=h_split, quick={'n': 3}, thorough={'n': 5}, bounds=B3, covers=['done']),
    dict(name='sub', fn=h_sub, quick={'n': 2}, thorough={'n': 4}, bounds=B3 + ', replacements of up to two characters', covers=['all', 'first']),
    dict(name='template', fn=h_template, quick={'n': 3}, thorough={'n': 4}, bounds=B3 + ', listed replacements', covers=['done']),
    dict(name='literal', fn=h_literal, quick={'n': 4}, thorough={'n': 6}, bounds='texts of up to n, patterns of up to two of 3 characters', covers=['done']),
    dict(name='numbers', fn=h_numbers, quick={'m': 99}, thorough={'m': 99}, bounds='whole numbers up to m', covers=['done']),
    dict(name='array', fn=h_array, quick={}, thorough={}, bounds='two texts of up to two characters', covers=['done']),
    dict(name='bad', fn=h_bad, quick={}, thorough={}, bounds='listed texts', covers=['done']),
]
ASSUMES = ['the matcher of CPython (C code) is replaced by a symbolic matcher driven by CPython\'s parse of the pattern; counterexamples and sampled paths run with the real one']
