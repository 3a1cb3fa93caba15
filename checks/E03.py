"""E03: parsing is lossless and errors are located."""
import anytext as T
from common import tryev
LIBS = T.LIBS
CALCS = ['Computing']
BUDGET = {'quick': 300, 'thorough': 850}


def joined(items):
    s = ''
    for x in items:
        s = s + x.text
    return s


def inner(h, items):
    """Every item made of items has the text of its items."""
    R = h.lib('objects.items').RecursiveOperandItem
    for x in items:
        if isinstance(x, R):
            h.check(joined(x.items) == x.text, 'an item has the text of its parts')
            inner(h, x.items)


def located(h, e, text):
    """The items reported before an error, and the offending text, are where they are in the text; gives the reported position."""
    items = [x for st in e.statements for x in st]
    done = joined(items)
    n = len(done)
    h.check(n <= len(text) and done == text[0:n], 'the reported items are the start of the text')
    if e.next is not None:
        k = len(e.next)
        h.check(text[n:n + k] == e.next, 'the offending text comes next')
    h.check(e.find_pos(text) == n, 'the position is the end of the reported items')
    h.check(e.truncate(text) == done, 'the text up to the position')
    inner(h, items)
    return n


def lossless(h, c, text):
    E = h.lib('objects.exceptions')
    for flags in h.p('flags', [{'parse_only': True}, {}]):
        try:
            r = c.calculate(text, dict(flags))
        except E.CalculatingException as e:
            located(h, e, text)
            h.cover('located')
        else:
            whole = ''
            for x in r.results:
                whole = whole + x.expression
                h.check(joined(x.items) == x.expression, 'a result has the text of its statement')
                inner(h, x.items)
            h.check(whole == text, 'the items make up the text')
            h.cover('lossless')


def look(h, gen):
    c = h.calc('Computing')
    h.float_opaque(True)
    text = gen(h, c)
    T.setup(h, c, text)
    lossless(h, c, text)


def h_chars(h):
    """Texts of arbitrary characters."""
    look(h, lambda h, c: T.chars(h))


def h_token(h):
    """Any token in any template."""
    look(h, lambda h, c: T.token(h))


def h_tokens(h):
    """Sequences of tokens."""
    look(h, lambda h, c: T.tokens(h))


def h_inside(h):
    """Arbitrary characters inside templates."""
    look(h, lambda h, c: T.inside(h))


# well-formed surroundings of one failing piece, which is at %s and evaluated before anything after it
AROUND = ['%s', 'va + (%s)', '(%s) * va', ' ( %s )', '[1, %s , 3]', '[%s]', '[ 1 .. %s ]', 'max(1, 2 + 3, %s, va)', 'max( va , %s )', 'max(,,va,%s,)', '@ff(%s)', '@ff(va + 1,, %s , 2)', 'vx = 1\nvx + (%s)', "'a' +$ (%s)", 'abs(%s)', '# c\n%s',
          'va # (\n\n  %s # c', 'element([va, 2], %s)', '((va) + (%s)) * 2', 'vx = (%s)', 'va == (%s)', 'not (%s)', '[[1], [%s]]', '-1 - (%s)', "length('#(') + (%s)", '1 + 2 * (%s) - 4', 'va == va then (%s) else 2', '(%s) m', '[1..9 step %s]', 'va (%s)', '(%s) to m']
# (failing piece, where in it the error is): operations whose operands do not fit, functions, texts that do not parse
FAILS = [("1 + 'a'", 2), ("'a' * 2", 4), ("2 m + 3 s", 4), ('1 / 0', 2), ("abs('a')", 0), ('1 +', 2), ('* 2', 0), ('1 * * 2', 2), ('va + (1 -)', 8), ('va + abs(2 *)', 11), ('lcm(1, 2, abs(\'x\'))', 10), ('@vx0(1)', 7), ('[1, 2 *]', 6), ('$', 0), ('(1 + ;)', 5), ('abs(1, ?)', 7), ('[1, 2 ;]', 6), ('[,]', 1), ("1 + 'b'", 2)]


def h_where(h):
    """One failing piece in well-formed surroundings, up to two deep: the error is reported where it is."""
    c = h.calc('Computing')
    T.setup(h, c)
    piece, at = h.choose('piece', h.p('fails', FAILS))
    for i in range(h.p('deep')):
        ts = h.p('around', AROUND)
        t = h.choose('around%d' % i, ts if i == h.p('deep') - 1 else [x for x in ts if not (x.startswith('v') and '\n' in x)])      # several statements only outermost
        at += t.index('%s')
        piece = (t % piece)
    E = h.lib('objects.exceptions')
    try:
        c.calculate(piece)
    except E.CalculatingException as e:
        n = located(h, e, piece)
        h.observe(n)
        h.check(n == at, 'the error is reported where it is')
        h.cover('located')
    else:
        h.fail('an error')


def H(name, fn, quick, thorough, bounds, covers=('lossless', 'located')):
    return dict(name=name, fn=fn, quick=quick, thorough=thorough, bounds=bounds, covers=list(covers))


HARNESSES = [
    H('where', h_where, {'deep': 2, 'm': 0}, {'deep': 3}, 'each of 19 failing pieces in 31 surroundings, two (thorough: three) deep', ['located']),
    H('chars', h_chars, {'lo': 0, 'hi': 3, 'alphabet': 'full', 'm': 0}, {'hi': 4}, 'every text up to hi characters of 43'),
    H('num', h_chars, {'lo': 4, 'hi': 4, 'alphabet': 'num', 'm': 0}, {'hi': 6}, 'every text of lo to hi characters of 10 that numbers are made of'),
    H('struct', h_chars, {'lo': 4, 'hi': 4, 'alphabet': 'struct', 'm': 0}, {'hi': 6}, 'the same for brackets and names'),
    H('texty', h_chars, {'lo': 4, 'hi': 5, 'alphabet': 'texty', 'm': 0}, {'hi': 7}, 'the same for quotes, escapes and comments'),
    H('oper', h_chars, {'lo': 4, 'hi': 4, 'alphabet': 'oper', 'm': 0}, {'hi': 5}, 'the same for operators'),
    H('token', h_token, {'m': 0}, {}, 'each of 51 templates with each of 87 tokens'),
    H('tokens', h_tokens, {'n': 2, 'm': 0}, {'n': 3}, 'every sequence of n tokens'),
    H('inside', h_inside, {'lo': 1, 'hi': 1, 'alphabet': 'full', 'm': 0}, {'hi': 2}, 'each template with any lo to hi characters'),
]
