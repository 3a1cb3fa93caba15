"""E02: any input text yields a response or a calculator error."""
import anytext as T
LIBS = T.LIBS + ['objects.units']
CALCS = ['Computing']
BUDGET = {'quick': 300, 'thorough': 850}


def shown(h, c, v, u):
    """Every value can be shown as text."""
    t = type(v).__name__
    if isinstance(v, list):
        for e in v:
            shown(h, c, e.value, e.unit)
        return
    h.check(not isinstance(v, Exception) or isinstance(v, h.lib('objects.exceptions').CalculatorException), 'an error of the calculator')
    if t not in ('SymStr', 'SymBool', 'str', 'bool') and hasattr(v, 'to_string'):
        s = v.to_string(c)
    else:
        s = str(v)
    h.check(isinstance(s, str) or type(s).__name__ in ('SymStr', 'Opaque', 'OpaqueStr'), 'a value shows as text')
    if u is not None:
        u.get_name(h.lib('objects.number').Number(2))
        u.singular(), u.plural()
        if u.has_symbols():
            u.symbol()


def yields(h, c, text):
    E = h.lib('objects.exceptions')
    try:
        r = c.calculate(text)
    except E.CalculatingException as e:
        h.check(isinstance(str(e), str) or True, 'an error shows as text')
        h.cover('error')
        return
    for x in r.results:
        if x.has_result():
            shown(h, c, x.value, x.unit)
    h.cover('response')


def look(h, gen):
    c = h.calc('Computing')
    h.float_opaque(True)
    text = gen(h, c)
    T.setup(h, c, text)
    yields(h, c, text)


def h_chars(h):
    """Texts of arbitrary characters."""
    look(h, lambda h, c: T.chars(h))


def h_based(h):
    """Numbers written in an arbitrary base, and what looks like them."""
    look(h, lambda h, c: h.choose('pre', h.p('pres')) + h.str('t', (0, h.p('hi')), h.p('alphabet')))


def h_token(h):
    """Any token in any template."""
    look(h, lambda h, c: T.token(h))


def h_tokens(h):
    """Sequences of tokens."""
    look(h, lambda h, c: T.tokens(h))


def h_inside(h):
    """Arbitrary characters inside templates."""
    look(h, lambda h, c: T.inside(h))


def h_operation(h):
    """Every operator on operands of every kind."""
    look(h, T.operation)


def h_call(h):
    """Every function on arguments of every kind."""
    look(h, T.call)


def H(name, fn, quick, thorough, bounds):
    return dict(name=name, fn=fn, quick=quick, thorough=thorough, bounds=bounds, covers=['response', 'error'])


HARNESSES = [
    H('chars', h_chars, {'lo': 0, 'hi': 3, 'alphabet': 'full'}, {'hi': 4}, 'every text up to hi characters of 43'),
    H('num', h_chars, {'lo': 4, 'hi': 4, 'alphabet': 'num'}, {'hi': 6}, 'every text of lo to hi characters of 10 that numbers are made of'),
    H('struct', h_chars, {'lo': 4, 'hi': 4, 'alphabet': 'struct'}, {'hi': 6}, 'the same for brackets and names'),
    H('texty', h_chars, {'lo': 4, 'hi': 5, 'alphabet': 'texty'}, {'hi': 7}, 'the same for quotes, escapes and comments'),
    H('oper', h_chars, {'lo': 4, 'hi': 4, 'alphabet': 'oper'}, {'hi': 5}, 'the same for operators'),
    H('based', h_based, {'pres': ['10z', '2z', '0z'], 'hi': 3, 'alphabet': '01EAez.-+ '}, {'pres': ['10z', '16z', '2z', '0z', '1z', '37z', '-10z', '\'10z', '010z'], 'hi': 4, 'alphabet': '01AEeNnaz.-+ \''}, 'listed bases with any up to hi characters that digits are made of'),
    H('token', h_token, {}, {}, 'each of 51 templates with each of 87 tokens'),
    H('tokens', h_tokens, {'n': 2}, {'n': 3}, 'every sequence of n tokens'),
    H('inside', h_inside, {'lo': 1, 'hi': 1, 'alphabet': 'full'}, {'hi': 2}, 'each template with any lo to hi characters'),
    H('operation', h_operation, {'left': T.KINDS_FEW + ['50%', '0b11', '[1, 2, va]']}, {'left': T.KINDS, 'right': T.KINDS}, 'every operator with 32 kinds of operands'),
    H('call', h_call, {'counts': [0, 1, 2]}, {'counts': [0, 1, 2, 3]}, 'every function with up to 2 arguments of 32 kinds'),
]
