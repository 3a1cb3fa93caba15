"""E09: text is highlighted and rendered without loss."""
import anytext as T
LIBS = T.LIBS
CALCS = ['Computing']
BUDGET = {'quick': 300, 'thorough': 850}


def joined(fragments):
    s = ''
    for kind, t in fragments:
        s = s + t
    return s


def highlighted(h, c, text):
    E = h.lib('objects.exceptions')
    hl = h.lib('services.syntaxhighlighter').SyntaxHighlighter()
    for flags in [{'parse_only': True}, {}]:
        try:
            r = c.calculate(text, dict(flags))
        except E.CalculatingException as e:
            statements = e.statements
            results = e.response.results if e.has_response() else []
            h.cover('invalid')
        else:
            statements = [x.items for x in r.results]
            results = r.results
            h.cover('valid')
        # the whole text, with the items known of it; what is not parsed is kept
        items = [x for st in statements for x in st]
        h.check(joined(hl.highlight(text, items)) == text, 'the fragments make up the text')
        done = ''
        for x in items:
            done = done + x.text
        whole = ''
        for fs in hl.highlight_statements(statements):
            whole = whole + joined(fs)
            h.check(all(len(f) == 2 and type(f[0]).__name__ == 'str' for f in fs), 'each fragment has a kind')
        h.check(whole == done, 'the fragments make up the statements')
        for x in results:
            h.check(joined(hl.highlight(x.expression, x.items)) == x.expression, 'the fragments make up the statement')


def look(h, gen):
    c = h.calc('Computing')
    h.float_opaque(True)
    text = gen(h, c)
    T.setup(h, c, text)
    highlighted(h, c, text)


def h_chars(h):
    """Texts of arbitrary characters."""
    look(h, lambda h, c: T.chars(h))


def h_token(h):
    """Any token in any template."""
    look(h, lambda h, c: T.token(h))


def h_tokens(h):
    """Sequences of tokens."""
    look(h, lambda h, c: T.tokens(h))


def h_inside(h):
    """Arbitrary characters inside templates."""
    look(h, lambda h, c: T.inside(h))


KIND = [("1", 'literal'), ("'a b'", 'literal'), ('va', 'variable'), ('+', 'op'), (' ', 'whitespace'), ('# c', 'comment'), ('abs', 'function'), ('(', 'structural')]


def h_prefix(h):
    """Items of any part of a statement from its start: what follows them is kept as it is."""
    c = h.calc('Computing')
    T.setup(h, c)
    hl = h.lib('services.syntaxhighlighter').SyntaxHighlighter()
    text = h.choose('text', h.p('texts', TEXTS))
    r = c.calculate(text, {'parse_only': True})
    items = [i for x in r.results for i in x.items]
    n = h.choose('n', list(range(len(items) + 1)))
    tail = h.str('tail', (0, h.p('tail')), T.FULL)
    h.check(joined(hl.highlight(text + tail, items[:n])) == text + tail, 'the fragments make up the text')
    h.cover('valid')


TEXTS = ["va + abs(1, 'a b') # c", '[1, [va..2], {1}]\nvx = 2 m', "@ff(va, (1 + 2)) - 'it''s'", "'a\\'b' +$ 'c' ==$ 'd'", 'va va va', '((va))', '{1\n2 # a\n}', 'true then va else null']


def H(name, fn, quick, thorough, bounds, covers=('valid', 'invalid')):
    return dict(name=name, fn=fn, quick=quick, thorough=thorough, bounds=bounds, covers=list(covers))


HARNESSES = [
    H('prefix', h_prefix, {'tail': 2, 'm': 0}, {'tail': 4}, '8 texts, items of every prefix, followed by any up to tail characters', ['valid']),
    H('token', h_token, {'m': 0}, {}, 'each of 51 templates with each of 87 tokens'),
    H('tokens', h_tokens, {'n': 2, 'm': 0}, {'n': 3}, 'every sequence of n tokens'),
    H('inside', h_inside, {'lo': 1, 'hi': 1, 'alphabet': 'full', 'm': 0}, {'hi': 2}, 'each template with any lo to hi characters'),
    H('chars', h_chars, {'lo': 0, 'hi': 2, 'alphabet': 'full', 'm': 0}, {'hi': 4}, 'every text up to hi characters of 43'),
    H('struct', h_chars, {'lo': 4, 'hi': 4, 'alphabet': 'struct', 'm': 0}, {'hi': 6}, 'every text of lo to hi characters of 14 that brackets and names are made of'),
    H('texty', h_chars, {'lo': 4, 'hi': 5, 'alphabet': 'texty', 'm': 0}, {'hi': 7}, 'the same for quotes, escapes and comments'),
    H('oper', h_chars, {'lo': 3, 'hi': 3, 'alphabet': 'oper', 'm': 0}, {'hi': 5}, 'the same for operators'),
]
