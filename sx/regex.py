"""Backtracking regular-expression matcher over symbolic text, driven by CPython's own parse tree of the pattern."""
import re
from re import _parser as sp, _constants as sc
from . import core
from .core import Unsupported
from .text import SymStr, SymChar, mk, char_eq, elements

_trees = {}


def tree(pat):
    k = (pat.pattern, pat.flags)
    if k not in _trees:
        _trees[k] = sp.parse(pat.pattern, pat.flags & ~re.UNICODE.value if isinstance(pat.pattern, bytes) else pat.flags & ~re.DEBUG.value)
    return _trees[k]


def cat(name, c):
    s = str(name)
    if s.endswith('NOT_DIGIT'): return not c.isdecimal()
    if s.endswith('DIGIT'): return c.isdecimal()
    if s.endswith('NOT_SPACE'): return not c.isspace()
    if s.endswith('SPACE'): return c.isspace()
    if s.endswith('NOT_WORD'): return not (c.isalnum() or c == '_')
    if s.endswith('WORD'): return c.isalnum() or c == '_'
    raise Unsupported('regex category ' + s)


def in_match(items, c, icase):
    def one(c):
        neg = False
        for op, av in items:
            if op is sc.NEGATE:
                neg = True
            elif op is sc.LITERAL:
                if ord(c) == av: return not neg
            elif op is sc.RANGE:
                if av[0] <= ord(c) <= av[1]: return not neg
            elif op is sc.CATEGORY:
                if cat(av, c): return not neg
            else:
                raise Unsupported('regex set item ' + str(op))
        return neg
    if icase:
        if items and items[0][0] is sc.NEGATE:
            return all(one(x) for x in {c, c.lower(), c.upper()} if len(x) == 1)
        return any(one(x) for x in {c, c.lower(), c.upper()} if len(x) == 1)
    return one(c)


class M:
    def __init__(self, pat, s, flags):
        self.pat, self.s = pat, s
        self.es = elements(s)
        self.n = len(self.es)
        self.icase = bool(flags & re.IGNORECASE)
        self.dotall = bool(flags & re.DOTALL)
        self.multiline = bool(flags & re.MULTILINE)
        self.groups = {}

    def test(self, i, key, pred):
        x = self.es[i]
        if type(x) is SymChar:
            return x.test((self.pat.pattern, self.pat.flags, key), pred)
        return pred(x)

    def seq(self, nodes, k, i, cont):
        if k == len(nodes):
            return cont(i)
        op, av = nodes[k]
        nxt = lambda j: self.seq(nodes, k + 1, j, cont)
        if op is sc.LITERAL or op is sc.NOT_LITERAL:
            if i >= self.n:
                return None
            ch = chr(av)
            if self.icase:
                ok = self.test(i, ('Li', av), lambda c: c.lower() == ch.lower() or c.upper() == ch.upper())
            else:
                ok = self.test(i, ('L', av), lambda c: c == ch)
            if ok == (op is sc.LITERAL):
                return nxt(i + 1)
            return None
        if op is sc.ANY:
            if i >= self.n:
                return None
            if self.dotall or not self.test(i, 'NL', lambda c: c == '\n'):
                return nxt(i + 1)
            return None
        if op is sc.IN:
            if i >= self.n:
                return None
            if self.test(i, ('IN', self.icase, repr(av)), lambda c: in_match(av, c, self.icase)):
                return nxt(i + 1)
            return None
        if op is sc.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, i, nxt)
                if r is not None:
                    return r
            return None
        if op is sc.SUBPATTERN:
            g, add, dele, p = av
            if (add | dele) & ~re.IGNORECASE.value:
                raise Unsupported('inline regex flags')
            outer = self.icase
            inner = outer if not (add or dele) else bool(add & re.IGNORECASE.value)

            def done(j):
                self.icase = outer
                r = done_(j)
                self.icase = inner
                return r

            def done_(j):
                prev = self.groups.get(g)
                if g is not None:
                    self.groups[g] = (i, j)
                r = nxt(j)
                if r is None and g is not None:
                    if prev is None:
                        self.groups.pop(g, None)
                    else:
                        self.groups[g] = prev
                return r
            self.icase = inner
            r = self.seq(list(p), 0, i, done)
            self.icase = outer
            return r
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = av
            p = list(p)
            hi = self.n + 1 if hi is sc.MAXREPEAT else hi
            greedy = op is sc.MAX_REPEAT

            def rep(cnt, i):
                def more():
                    if cnt >= hi:
                        return None
                    return self.seq(p, 0, i, lambda j: rep(cnt + 1, j) if (j > i or cnt < lo) else None)
                if cnt < lo:
                    return more()
                if greedy:
                    r = more()
                    return r if r is not None else nxt(i)
                r = nxt(i)
                return r if r is not None else more()
            return rep(0, i)
        if op is sc.AT:
            a = str(av)
            if a in ('AT_BEGINNING_STRING',) or (a == 'AT_BEGINNING' and not self.multiline):
                return nxt(i) if i == 0 else None
            if a == 'AT_BEGINNING':
                return nxt(i) if i == 0 or char_eq(self.es[i - 1], '\n') else None
            if a == 'AT_END_STRING':
                return nxt(i) if i == self.n else None
            if a == 'AT_END':
                if i == self.n or (i == self.n - 1 and char_eq(self.es[i], '\n')):
                    return nxt(i)
                if self.multiline and i < self.n and char_eq(self.es[i], '\n'):
                    return nxt(i)
                return None
            if a in ('AT_BOUNDARY', 'AT_NON_BOUNDARY'):
                w = lambda j: 0 <= j < self.n and self.test(j, 'w', lambda c: c.isalnum() or c == '_')
                b = w(i - 1) != w(i)
                return nxt(i) if b == (a == 'AT_BOUNDARY') else None
            raise Unsupported('regex anchor ' + a)
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            d, p = av
            if d < 0:
                w = p.getwidth()
                if w[0] != w[1]:
                    raise Unsupported('variable-width lookbehind')
                ok = i - w[0] >= 0 and self.seq(list(p), 0, i - w[0], lambda j: j if j == i else None) is not None
            else:
                ok = self.seq(list(p), 0, i, lambda j: j) is not None
            return nxt(i) if ok == (op is sc.ASSERT) else None
        if op is sc.GROUPREF:
            if av not in self.groups:
                return None
            a, b = self.groups[av]
            if i + b - a > self.n or not all(char_eq(self.es[a + t], self.es[i + t]) for t in range(b - a)):
                return None
            return nxt(i + b - a)
        raise Unsupported('regex construct ' + str(op))


class SymMatch:
    def __init__(self, m, start, end, pat):
        self._m, self._s, self._e = m, start, end
        self.re = pat
        self.string = m.s
        self.pos = 0
        self.endpos = m.n
        self._g = dict(m.groups)
        self._g[0] = (start, end)

    def _idx(self, g):
        if isinstance(g, str):
            return self.re.groupindex[g]
        if g > self.re.groups:
            raise IndexError('no such group')
        return g

    def span(self, g=0):
        return self._g.get(self._idx(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def group(self, *gs):
        if not gs:
            gs = (0,)
        r = []
        for g in gs:
            a, b = self.span(g)
            r.append(None if a < 0 else mk(self._m.es[a:b]))
        return r[0] if len(r) == 1 else tuple(r)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self.group(i) if self.span(i)[0] >= 0 else default for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self.group(k) for k in self.re.groupindex}

    def __bool__(self):
        return True


def _run(pat, s, i, full=False, advance=False):
    t = tree(pat)
    m = M(pat, s, t.state.flags | pat.flags)
    fin = (lambda j: j if j == m.n else None) if full else (lambda j: j if j > i else None) if advance else (lambda j: j)
    r = m.seq(list(t), 0, i, fin)
    return None if r is None else SymMatch(m, i, r, pat)


def template(rep, pat):
    """The replacement text as literal elements and group numbers."""
    if type(rep) is SymStr:
        if any(char_eq(x, '\\') for x in rep.e):
            raise Unsupported('symbolic sub template with an escape')
        return list(rep.e)
    if '\\' not in rep:
        return list(rep)
    t = sp.parse_template(rep, pat)
    out = []
    for x in t:
        out += list(x) if isinstance(x, str) else [x]
    return out


def method(pat, name, args, kw):
    """Pattern.<name>(*args) with symbolic text somewhere in args."""
    if type(pat.pattern) is SymStr:
        raise Unsupported('symbolic pattern')
    if name in ('match', 'fullmatch', 'search') and type(args[0]) is SymStr and len(args) == 1 and not kw:
        s = args[0]
        if name == 'match':
            return _run(pat, s, 0)
        if name == 'fullmatch':
            return _run(pat, s, 0, True)
        for i in range(len(s) + 1):
            r = _run(pat, s, i)
            if r is not None:
                return r
        return None
    if name in ('finditer', 'findall', 'split', 'sub', 'subn'):
        si = 1 if name in ('sub', 'subn') else 0
        args = list(args)
        more = {'split': ['maxsplit'], 'sub': ['count'], 'subn': ['count']}.get(name, [])
        if 'string' in kw:
            args.append(kw['string'])
        limit = 0
        if len(args) > si + 1 and more:
            limit = args[si + 1]
        elif more and more[0] in kw:
            limit = kw[more[0]]
        elif len(args) > si + 1:
            raise Unsupported('Pattern.%s with positions' % name)
        if any(k not in ['string'] + more for k in kw):
            raise Unsupported('Pattern.%s with %s' % (name, sorted(kw)))
        limit = limit.concretise() if hasattr(limit, 'concretise') else int(limit)
        s = args[si]
        ms = []
        i = 0
        empty = False                     # the last match was empty: the next one must not be empty and start there
        while i <= len(s) and not (limit and len(ms) >= limit):
            r = _run(pat, s, i, advance=empty)
            empty = False
            if r is None:
                i += 1
                continue
            ms.append(r)
            empty = r.end() == r.start()
            i = r.end()
        if name == 'finditer':
            return iter(ms)
        if name == 'findall':
            def g(m, k):
                return '' if m.span(k)[0] < 0 else m.group(k)
            return [m.group(0) if pat.groups == 0 else g(m, 1) if pat.groups == 1 else tuple(g(m, k) for k in range(1, pat.groups + 1)) for m in ms]
        es = elements(s)
        if name == 'split':
            out, p = [], 0
            for m in ms:
                out.append(mk(es[p:m.start()]))
                out += list(m.groups())
                p = m.end()
            out.append(mk(es[p:]))
            return out
        out, p = [], 0
        rep = args[0]
        tpl = template(rep, pat) if isinstance(rep, (str, SymStr)) else None
        for m in ms:
            out += list(es[p:m.start()])
            if tpl is not None:
                for x in tpl:
                    if type(x) is int:
                        out += list(elements(m.group(x))) if m.span(x)[0] >= 0 else []
                    else:
                        out.append(x)
            else:
                out += list(elements(rep(m)))
            p = m.end()
        out += list(es[p:])
        return mk(out) if name == 'sub' else (mk(out), len(ms))
    raise Unsupported('Pattern.' + name)
