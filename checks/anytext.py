"""Texts of every shape for the properties about arbitrary input: symbolic characters, and templates with arbitrary tokens."""
from common import tryev

LIBS = ['objects.number', 'objects.items', 'objects.exceptions', 'services.syntaxhighlighter']
# every character that begins or continues some token, and some that belong to none
FULL = '0 1.eEx"\'\\\n#+-*/^=<>!~|&%$()[]{},@vas;?_E\u00c9\t'
NUM = '01.eE-xbo%'
STRUCT = '1 ([{)]},@v\n'
TEXTY = '"\'\\n #\n'
OPER = '1v+-*=<>!~&|$ '
VAR = 'vaRI=+ \n@'
ALPH = {'full': FULL, 'num': NUM, 'struct': STRUCT, 'texty': TEXTY, 'oper': OPER, 'var': VAR}

TOK = ['', '1', '-2', '0', '0.5', '50%', '0x2', '0b1', '"a"', "'2'", "''", 'true', 'null', 'va', 'vs', 'vl', 'vm', 'ff', 'vx', '@va', '@ff', '@ff(1)', '@ff(', '2 m', 'hours', 's', 'Celsius', "'2020-02-30'", "'2020-02-29'",
       'hex', 'boolean', 'date', 'si', 'pi', 'G', '[', ']', '(', ')', '{', '}', '[]', '[1]', '[1..2]', '{1}', ',', ' ', '\n', '#', '..', ' step ', 'abs(', 'max(', 'now()', 'then ', ' else ', ' if ', 'to ', ' as ', '=', '+=', '++', '+', '-', '*', '/', '^', '\\', '%', '!',
       '==', '<', '==$', '=~', '+$', '|', '||', '&', ' and ', ' not ', '"', "'", ';', '\u00c9', '$', '_', '.']

TEMPLATES = ['%s', '1 %s', '%s 1', 'va + %s', '%s * va', '(%s)', '[%s]', '[1, %s]', '[va..%s]', '[1..va..%s]', '{%s}', 'abs(%s)', 'max(%s, va)', 'max(va, %s)', '@ff(%s)', '@ff(va, %s)', 'vx = %s', 'va += %s', '%s then va else 2',
             'va then %s else 2', 'va then 1 else %s', 'vm to %s', 'va as %s', 'va %s', 'vm %s', "'%s'", 'va\n%s', '%s\nva', '((%s) + 1)', '[[%s]]', 'abs(max(%s))', '{%s\n1}', '@ff({%s})', 'not %s', '1 == %s', 'vs ==$ %s', 'vs =~ %s', "vs =~ '%s'", '%s # a', 'va / 0 + %s', '[va / 0, %s]',
             'max(,%s)', 'max(1 +, %s)', 'element(vl, %s)', 'va ^ %s', 'vm ^ %s', 'va << %s', 'va m/%s', 'va %s m', 'round(va, %s)', 'join([1, 2], %s)']


ROOTS = ('^', ' / ', ' % ', ' \\ ', '/= ', '%= ', '\\= ', 'log(', 'ln(', 'exp(', 'stdev(', 'scientific(')          # powers with fractions, logarithms and roots: values are listed, not symbolic


def setup(h, c, text=''):
    N = h.lib('objects.number')
    m = h.p('m', 1)
    listed = isinstance(text, str) and any(r in text.replace('^^', '') for r in ROOTS)
    c.vars['va'] = (N.Number(h.choose('va', list(range(-m, 2 * m + 1))) if listed else h.int('va', -m, 2 * m)), None)
    c.vars['vs'] = (h.str('vs', 1, "a1'"), None)
    tryev(h, c, "vl = [va, 'x']")
    tryev(h, c, 'vm = va m')
    tryev(h, c, 'ff = {PARAM1 * 2}')


def chars(h):
    return h.str('t', (h.p('lo'), h.p('hi')), ALPH[h.p('alphabet')])


def token(h):
    """One token in a template."""
    return h.choose('template', h.p('templates', TEMPLATES)) % h.choose('token', h.p('tokens', TOK))


def tokens(h):
    """A sequence of tokens."""
    s = ''
    for i in range(h.p('n')):
        s = s + h.choose('t%d' % i, h.p('tokens', TOK))
    return s


def inside(h):
    """Symbolic characters inside a template."""
    t = h.choose('template', h.p('templates', TEMPLATES))
    a, b = t.split('%s')
    return a + h.str('t', (h.p('lo'), h.p('hi')), ALPH[h.p('alphabet')]) + b


KINDS_FEW = ['0', 'va', '0.5', "'a'", 'vs', 'true', 'null', 'vl', '[]', '[[1], 2]', 'vm', 'm', '{1}', "abs('a')", 'vx', 'hex']
KINDS = ['1', '-2', '0', '0.5', 'va', '50%', '0b11', "''", "'a'", 'vs', "'12'", 'true', 'null', 'vl', '[]', '[1, 2, va]', '[[1], 2]', "['b', null]", 'vm', '2 m', '0 hours', '3 Celsius', 'm', "'2020-02-29'", '{1}', 'ff', "abs('a')", "[abs('a')]", 'vx', 'hex', 'si', '@ff(1)']


def operators(c):
    return sorted(o for o in c.ops_list if not any(ch.isupper() for ch in o) and c.ops_list[o].rinputs is not None)


def operation(h, c):
    """Every operator, with operands of every kind on either side."""
    o = h.choose('op', operators(c))
    op = c.ops_list[o]
    s = ''
    n = 0
    if len(op.linputs):
        s = h.choose('x%d' % n, h.p('left', KINDS)) + ' '
        n += 1
    s += o
    for r in op.rinputs:
        s += ' ' + (r if isinstance(r, str) else h.choose('x%d' % n, h.p('right', KINDS_FEW)))
        n += not isinstance(r, str)
    return s


def functions(c):
    return sorted(f for f in c.funcs if not f.startswith('sp_'))


def call(h, c):
    """Every function, with arguments of every kind."""
    f = h.choose('func', functions(c))
    k = h.choose('count', h.p('counts'))
    return f + '(' + ', '.join(h.choose('x%d' % i, h.p('kinds', KINDS_FEW)) for i in range(k)) + ')'
