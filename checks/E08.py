"""E08: operators and functions reject operands of the wrong type or number, and never ones of an accepted type."""
from common import tryev, tryevu, failed, run, val, equal
from unittable import UNITS, combine, text as ptext
LIBS = ['objects.number', 'objects.items', 'objects.exceptions']
CALCS = ['Computing', 'Basic', 'Advanced', 'Scientific']

# what each operand is: the types it surely has, and those the property leaves open; every other type it does not have
KINDS = {
    'va': ('n s', ''), 'vn': ('n s', ''), 'vs': ('s', ''), 'true': ('b n', 's'), 'va == 1': ('b n', 's'), 'vx': ('v', 's'), '2 m': ('n q', 's u'), '3 hours': ('n q t', 's u'), 'm': ('', 's u d'), 'hours': ('', 's u'),
    "'2020-02-29'": ('d s', ''), '{1}': ('', 's'), 'hexadecimal': ('r', 's'), 'si': ('y', 's'), "abs('a')": ('', ''), 'vf': ('', 's'), '@vf()': ('n s', ''),
}
ERRORS = ("abs('a')",)
ANY = 'any'


def types(k):
    sure, maybe = KINDS[k]
    sure, maybe = set(sure.split()), set(maybe.split())
    if k in ('m', 'hours'):
        sure, maybe = {'u'}, {'s'}
    if k == 'va':
        sure = sure | {'v'}
    elif k in ('vn', 'vs', 'vf'):
        sure = sure | {'v'}
    return sure, maybe


def accepts(t, k):
    """True, False, or None where it is left open."""
    if k in ERRORS:
        return False
    if t == ANY:
        return True
    sure, maybe = types(k)
    opts = set(t.split('|'))
    if opts & sure:
        return True
    if opts & maybe:
        return None
    return False


# n number, s string, b boolean, d date, t time, q quantity, u unit, r number representation, y unit system, v variable, A array, An/As/Ab array of one type
OPS = {o: ['n', 'n'] for o in ('+', '-', '%', '\\', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '&', '|', '^^')}
OPS.update({o: ['s', 's'] for o in ('+$', '<$', '>$', '<=$', '>=$', '==$', '!=$', '<~', '>~', '<=~', '>=~', '==~', '!=~', '=~', '!~')})
OPS.update({'*': ['n|u', 'n|u'], '/': ['n|u', 'n|u'], '^': ['n|u', 'n'], '*$': ['s', 'n'], 'and': ['b', 'b'], 'or': ['b', 'b'], 'xor': ['b', 'b'], '+%': ['d', 't'], '-%': ['d', 't'], 'as': ['n', 'r'], 'to': ['q|u', 'u'],
            '=': ['v', ANY], '||=': ['v', ANY]})
OPS.update({o: ['v', 'n'] for o in ('+=', '-=', '*=', '/=', '^=', '%=', '\\=')})
PRE = {'not': 'b', '~': 'n'}
POST = {'++': 'v', '--': 'v'}
FUNCS = {
    'abs': ['n'], 'acos': ['n'], 'acosh': ['n'], 'asin': ['n'], 'asinh': ['n'], 'atan': ['n'], 'atanh': ['n'], 'cos': ['n'], 'cosh': ['n'], 'sin': ['n'], 'sinh': ['n'], 'tan': ['n'], 'tanh': ['n'],
    'base': ['n', 'n'], 'bin': ['n'], 'oct': ['n'], 'hex': ['n'], 'dec': ['n'], 'ceil': ['n', 'n?'], 'floor': ['n', 'n?'], 'round': ['n', 'n?'], 'scientific': ['n', 'n?'],
    'exp': ['n'], 'fact': ['n'], 'gcd': ['n', 'n'], 'lcm': ['n', 'n'], 'log': ['n', 'n?'],
    'compact': ['q'], 'format': ['q', 'y?'], 'concat': ['A', 'A'], 'count': ['A'], 'reverse': ['A'], 'element': ['A', 'n'], 'filter': ['A', 'Ab'], 'max': ['An'], 'min': ['An'], 'mean': ['An'], 'median': ['An'], 'mode': ['An'],
    'sort': ['An'], 'stdev': ['An'], 'sum': ['An'], 'dateadd': ['d', 't'], 'datesubtract': ['d', 't'], 'datedifference': ['d', 'd', 'u?'], 'dateformat': ['d'], 'now': [], 'delete': ['v'], 'reset': [],
    'find': ['s', 's'], 'join': ['As', 's?'], 'length': ['s'], 'lower': ['s'], 'upper': ['s'], 'lstrip': ['s', 's'], 'rstrip': ['s', 's'], 'strip': ['s', 's'], 'replace': ['s', 's', 's'], 'split': ['s', 's'], 'substr': ['s', 'n', 'n?'],
    'regexcount': ['s', 's'], 'regexget': ['s', 's', 'n?'], 'regexsplit': ['s', 's'], 'regexsub': ['s', 's', 's', 'n?'],
}
COLLECT = ('count', 'reverse', 'max', 'min', 'mean', 'median', 'mode', 'sort', 'stdev', 'sum')       # take their one array as separate arguments too
ARRAYS = {'[va, 2]': 'n s', '[va, vs]': 's', "['a', 'b']": 's', '[true, va == 1]': 'b n', '[va, vx]': '', "[1, abs('a')]": '', '[1, true]': 'n', '[[1], 2]': '', '[va]': 'n s', "[2 m, 3 m]": 'n',
          "[1, 'x', va]": 's', '[true, va, va == 1]': 'n', '[va, [1], 2]': ''}
ARRAYS_OPEN = {'[true, va == 1]': 's', '[va, vx]': 's', '[1, true]': 's', '[2 m, 3 m]': 's', '[true, va, va == 1]': 's'}


def setup(h, c, m):
    N = h.lib('objects.number')
    c.vars['va'] = (N.Number(h.int('va', 1, m)), None)
    c.vars['vn'] = (h.str('vn', 1, '123'), None)
    c.vars['vs'] = (h.str('vs', 1, 'a;~'), None)
    tryev(h, c, 'vf = {2}')


def param(sig, i):
    return sig[i].rstrip('?')


def wrongfor(t, arrays=True):
    """Operands that surely have not the type t, as texts."""
    if t in ('A', 'An', 'As', 'Ab'):
        out = [k for k in KINDS]
        if t != 'A':
            out += [a for a, ts in ARRAYS.items() if t[1] not in ts.split() and t[1] not in ARRAYS_OPEN.get(a, '').split()]
        return out
    return [k for k in KINDS if accepts(t, k) is False]


def rightfor(t):
    if t in ('A', 'An', 'As', 'Ab'):
        return [a for a, ts in ARRAYS.items() if (t == 'A' and a != "[1, abs('a')]") or (t != 'A' and t[1] in ts.split())]
    return [k for k in KINDS if accepts(t, k) is True]


def text(name, args):
    """The expression applying an operator or function to its operands."""
    par = lambda a: '(' + a + ')' if ' ' in a and not a.startswith("'") and not a.startswith('[') else a
    if name in PRE:
        return name + ' ' + par(args[0])
    if name in POST:
        return args[0] + ' ' + name
    if name in OPS:
        return par(args[0]) + ' ' + name + ' ' + par(args[1])
    return name + '(' + ', '.join(args) + ')'


def signature(name):
    return [PRE[name]] if name in PRE else [POST[name]] if name in POST else OPS[name] if name in OPS else FUNCS[name]


def names(h, which):
    return sorted(PRE) + sorted(POST) + sorted(OPS) if which == 'operators' else sorted(FUNCS)


ANYTHING = list(KINDS) + list(ARRAYS)


def h_reject(h):
    """An operand of a type that is not accepted is an error, whatever the other operands are."""
    c = h.calc('Computing')
    setup(h, c, h.p('m'))
    name = h.choose('operation', names(h, h.p('which')))
    sig = signature(name)
    spots = [i for i in range(len(sig)) if wrongfor(param(sig, i))]
    if not spots:
        return
    i = h.choose('position', spots)
    wrong = h.choose('wrong', wrongfor(param(sig, i)))
    n = h.choose('count', [k for k in range(len([s for s in sig if not s.endswith('?')]), len(sig) + 1) if k > i])
    others = h.p('others')
    args = []
    for j in range(n):
        args.append(wrong if j == i else h.choose('other%d' % j, [k for k in others if k not in ARRAYS or param(sig, j).startswith('A')]))
    if name == 'or' and i == 1 or name == 'and' and i == 1:
        if wrong in ERRORS:
            return                                              # an error is allowed there (B01)
    if name == '||=' or name == '=' and i == 1:
        return
    before = dict(c.vars)
    got = tryev(h, c, text(name, args))
    h.check(failed(got) or isinstance(got, Exception), 'an operand of the wrong type is an error')
    h.check(set(before) == set(c.vars) and all(before[k] is c.vars[k] for k in before), 'an operation that is rejected changes no variable')
    h.cover('rejected')


def plain(h, v):
    return not failed(v) and not isinstance(v, Exception)


DOMAIN = {f: [['1', "'0.5'", 'true']] for f in ('tan', 'sin', 'cos', 'tanh', 'sinh', 'cosh', 'atan', 'asinh')}
DOMAIN.update({'acos': [["'0.5'", '0.5', 'true']], 'asin': [["'0.5'", '0.5', 'true']], 'atanh': [["'0.5'", '0.5']], 'base': [None, ['2', "'16'", '36']], 'acosh': [["'2'", '2', 'true']], 'log': [['2', "'3'", 'true', '5.5'], ['2', "'3'"]],
          'exp': [['2', "'3'", 'true']], 'element': [['[va, 2]', '[[1], 2]', "['a', 'b']"], ['2', "'1'", 'true']], 'filter': [['[va, 2]', '[[1], 2]'], ['[true, va == 1]']], 'concat': [None, None],
          'stdev': [['[1, 2]', "['1', 3]"]], 'substr': [["'abc'", 'vs', '123'], ['0', "'1'", 'true'], ['2', "'2'", 'true']], 'regexget': [["'ab'", "'b'"], ["'b'", "'[ab]'"], ['0', "'0'"]],
          'regexsub': [None, ["'b'", '1', 'va', 'vs'], ["'x'", '1', "'2020-02-29'"], ['0', "'0'"]], 'regexcount': [None, ["'b'", '1', 'va', 'vs']], 'regexsplit': [None, ["'b'", '1', 'va', 'vs']], 'scientific': [['2', "'3'", '0.5'], ['1', "'2'"]],
          'sort': [['[va, 2]', '[1, true]', "['1', '2']"]], 'mode': [['[va, 2, 2]', '[va]', '[1, 1, true]']], 'delete': [['va', 'vs', 'vf']], 'format': [['2 m', '3 hours', '2 kg'], ['si']],
          '=~': [None, ["'b'", '1', 'va', 'vs']], '!~': [None, ["'b'", '1', 'va', 'vs']], '%': [['5', "'7'", 'va', 'true'], ['2', "'3'", 'true']], '\\': [['5', "'7'", 'va', 'true'], ['2', "'3'", 'true']], '/': [None, ['2', "'3'", 'true', 'm', '2 m', 'va']],
          '^': [['2', "'3'", 'true', 'm', '2 m'], ['2', "'3'", 'true']], 'to': [['2 m', 'inches'], ['feet', 'm']], 'as': [['va', "'2'", 'true', 'vn'], ['hexadecimal', 'binary', 'decimal']],
          '^=': [['va', 'vn'], ['2', "'2'", 'true']], '/=': [['va', 'vn'], ['2', "'2'", 'true']], '%=': [['va', 'vn'], ['2', "'2'", 'true']], '\\=': [['va', 'vn'], ['2', "'2'", 'true']], '+=': [['va', 'vn'], None], '-=': [['va', 'vn'], None], '*=': [['va', 'vn'], None],
          '++': [['va', 'vn']], '--': [['va', 'vn']], 'dateadd': [["'2020-02-29'"], ['3 hours', '5 days', '3 weeks', 'true seconds']], 'datesubtract': [["'2020-02-29'"], ['3 hours', '5 days', '3 weeks', 'true seconds']],
          '+%': [["'2020-02-29'"], ['3 hours', '5 days', '3 weeks']], '-%': [["'2020-02-29'"], ['3 hours', '5 days', '3 weeks']], 'datedifference': [None, None, ['hours', 'weeks']], 'round': [['va', "'2.5'", 'true', '2 m'], ['1', "'0'", 'true']],
          'ceil': [['va', "'2.5'", 'true', '2 m'], ['1', "'0'", 'true']], 'floor': [['va', "'2.5'", 'true', '2 m'], ['1', "'0'", 'true']]})
NUMS = ['va', 'vn', 'true', '@vf()', "'1'"]
STRS = ['va', 'vn', 'vs', "'2020-02-29'", "'ab'", '@vf()']
DEFAULT = {'n': NUMS, 's': STRS, 'b': ['true', 'va == 1', 'false'], 'd': ["'2020-02-29'", "'2020-01-01T10:00:00'"], 'q': ['2 m', '3 hours'], 'n|u': NUMS + ['m', '2 m'], 'v': ['va', 'vs'], 'any': list(KINDS)[:-3] + ['[1, va]', '[[1], 2]']}


def h_accept(h):
    """Operands of accepted types, in the operation's domain, have a value."""
    c = h.calc('Computing')
    setup(h, c, h.p('m'))
    name = h.choose('operation', names(h, h.p('which')))
    sig = signature(name)
    n = h.choose('count', list(range(len([s for s in sig if not s.endswith('?')]), len(sig) + 1)))
    args = []
    for i in range(n):
        t = param(sig, i)
        opts = DOMAIN.get(name, [None] * n)[i] or DEFAULT.get(t) or rightfor(t)
        args.append(h.choose('arg%d' % i, opts))
    if name in ('*', '/', '^') and args[0].endswith('m') and args[1].endswith('m') and (args[0] == 'm') != (args[1] == 'm'):
        return                                                    # a unit and a quantity: left open
    if name in ('*', '/') and any(a in ('m',) for a in args) and 'true' in args:
        return
    if name in ('max', 'min', 'mean', 'median', 'mode', 'sort', 'stdev', 'sum') and h.choose('spread', [False, True]):
        if args[0] not in ARRAYS or ',' not in args[0]:
            return
        args = [args[0][1:-1]]
    got = tryev(h, c, text(name, args))
    h.check(plain(h, got), 'operands of accepted types have a value')
    h.cover('accepted')


def h_count(h):
    """Too few or too many arguments are an error."""
    c = h.calc('Computing')
    setup(h, c, h.p('m'))
    name = h.choose('operation', [f for f in names(h, 'functions')])
    sig = FUNCS[name]
    lo = len([s for s in sig if not s.endswith('?')])
    n = h.choose('count', [k for k in range(h.p('n') + 1) if (k < lo or k > len(sig)) and not (name in COLLECT and k > 1)])
    args = []
    for i in range(n):
        opts = rightfor(param(sig, i)) if i < len(sig) else h.p('others')
        args.append(h.choose('arg%d' % i, opts[:h.p('some')]))
    before = dict(c.vars)
    got = tryev(h, c, text(name, args))
    h.check(failed(got), 'a wrong number of arguments is an error')
    h.check(set(before) == set(c.vars) and all(before[k] is c.vars[k] for k in before), 'a call that is rejected changes no variable')
    h.cover('rejected')


def h_operands(h):
    """An operator without one of its operands is an error."""
    c = h.calc('Computing')
    setup(h, c, h.p('m'))
    name = h.choose('operation', sorted(OPS) + sorted(POST) + sorted(PRE))
    a = h.choose('operand', ['va', 'vs', 'true', '2 m', '[1, va]', '(va)'])
    if name in PRE:
        t = h.choose('form', [name, name + ' ', '(' + name + ')', 'va ' + name if name != '~' else name])
    elif name in POST:
        t = h.choose('form', [name, name + ' ' + a, '(' + name + ')'])
    else:
        t = h.choose('form', [name + ' ' + a, a + ' ' + name, '(' + a + ' ' + name + ')', name, a + ' ' + name + ' ' + name + ' ' + a, '[' + a + ' ' + name + ']', 'abs(' + a + ' ' + name + ', 1)'])
        if name == '-' and t == name + ' ' + a or name in ('+', '-') and name + ' ' + name in t or name in ('<', '>', '=', '&', '|', '*', '/', '^', '%') and name + ' ' + name in t or name == 'and':
            pass
    got = tryev(h, c, t)
    h.check(not plain(h, got), 'an operator without its operands is an error')
    h.cover('rejected')


def h_elements(h):
    """An array given where a single value is expected: exactly the elements of the wrong type are errors."""
    c = h.calc('Computing')
    setup(h, c, h.p('m'))
    name = h.choose('operation', [n for n in names(h, h.p('which')) if n not in ('=', '||=', 'or', 'and', 'xor', '++', '--', 'delete', 'reset') and not n.endswith('=') or n in ('==', '!=', '<=', '>=')])
    sig = signature(name)
    spots = [i for i in range(len(sig)) if not param(sig, i).startswith('A') and wrongfor(param(sig, i))]
    if not spots:
        return
    i = h.choose('position', spots)
    t = param(sig, i)
    n = max(i + 1, len([s for s in sig if not s.endswith('?')]))
    elements, expect = [], []
    k = h.p('n')
    bad = h.choose('bad', list(range(k)))
    for j in range(k):
        if j == bad:
            elements.append(h.choose('wrong', [w for w in wrongfor(t) if w not in ('hexadecimal', 'si') + ERRORS]))
            expect.append(False)
        else:
            opts = DOMAIN.get(name, [None] * n)[i] or DEFAULT.get(t) or rightfor(t)
            opts = [o for o in opts if o not in ('hexadecimal', 'si', 'binary', 'decimal')]
            if not opts:
                return
            elements.append(h.choose('element%d' % j, opts[:2]))
            expect.append(True)
    args = []
    for j in range(n):
        if j == i:
            args.append('[' + ', '.join(elements) + ']')
        else:
            opts = DOMAIN.get(name, [None] * n)[j] or DEFAULT.get(param(sig, j)) or rightfor(param(sig, j))
            args.append(opts[0])
    got = tryev(h, c, text(name, args))
    if failed(got) or not isinstance(got, list):
        h.fail('an array of operands gives an array')
    h.check(len(got) == k, 'one result for each element')
    for j in range(k):
        h.check((not isinstance(got[j].value, Exception)) == expect[j], 'exactly the elements of the wrong type are errors')
    h.cover('elements')


def h_special(h):
    """The special functions take as many numbers as the mathematical function, and nothing else."""
    import scipy.special
    c = h.calc('Scientific')
    setup(h, c, h.p('m'))
    name = h.choose('function', [f for f in sorted(c.funcs) if f.startswith('sp_')])
    base = name[3:]
    while base and not hasattr(getattr(scipy.special, base, None), 'nin'):
        base = base.rsplit('_', 1)[0] if '_' in base else ''
    if not base:
        return
    want = getattr(scipy.special, base).nin
    n = h.choose('count', [want] + [k for k in h.p('counts') if k != want])
    if n == want:
        i = h.choose('position', list(range(n)))
        args = ['va'] * n
        args[i] = h.choose('wrong', [k for k in ('vs', 'vx', 'm', "'2020-02-29'", '{1}', "abs('a')", 'vf')][:h.p('wrong')])
    else:
        args = ['2'] * n
    got = tryev(h, c, name + '(' + ', '.join(args) + ')')
    h.check(failed(got), 'a wrong type or number of arguments is an error')
    h.cover('rejected')


def h_time(h):
    """Dates move by times, and by nothing of another dimension."""
    c = h.calc('Computing')
    setup(h, c, h.p('m'))
    u = h.choose('unit', sorted(UNITS) + ['kilometers', 'milliseconds', 'microseconds'])
    p = h.choose('power', h.p('powers'))
    parts = [(u, p)] + ([('meters', 1)] if h.choose('times', [False, True]) else [])
    istime = combine(parts)[0] == {'T': 1}
    form = h.choose('form', ["dateadd('2020-02-29', %s)", "datesubtract('2020-02-29', %s)", "'2020-02-29' +%% %s", "'2020-02-29' -%% %s"])
    q = 'va ' + ptext(parts)
    got = tryev(h, c, form % q)
    if istime:
        h.check(plain(h, got), 'a date moves by a time')
        h.cover('accepted')
    else:
        h.check(failed(got), 'a date does not move by anything but a time')
        h.cover('rejected')


def numeral(h, t):
    """Whether a text is a number in one of the notations: decimal, scientific, percentage, binary, octal, hexadecimal or an arbitrary base."""
    n = len(t)

    def isin(i, cls):
        if i >= n:
            return False
        for a in cls:
            if h.is_true(t[i] == a):
                return True
        return False

    def run_of(i, cls):
        j = i
        while isin(j, cls):
            j += 1
        return j

    def fraction(i, cls):
        # the end of digits with an optional fraction starting at i, or None
        j = run_of(i, cls)
        if j == i:
            return None
        if isin(j, '.'):
            k = run_of(j + 1, cls)
            return k if k > j + 1 else j
        return j
    start = 1 if isin(0, '-') else 0
    whole = run_of(start, DIGITS)
    if whole == start:
        return False
    if whole == start + 1 and isin(start, '0'):
        for letter, cls in (('bB', '01'), ('oO', '012'), ('xX', DIGITS + 'bBeE')):
            if isin(whole, letter):
                return fraction(whole + 1, cls) == n
    if isin(whole, 'zZ'):
        base = 0
        for i in range(start, whole):
            base = base * 10 + [d for d in (0, 1, 2) if isin(i, str(d))][0]
        if base < 2 or base > 36:
            return False
        alphabet = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'[:base]
        return fraction(whole + 1, ''.join(d for d in NUMERAL if d.upper() in alphabet)) == n
    end = fraction(start, DIGITS)
    if end == n:
        return True
    if isin(end, '%'):
        return end + 1 == n
    if isin(end, 'eE'):
        j = end + 2 if isin(end + 1, '-') else end + 1
        return run_of(j, DIGITS) == n and j < n
    return False


DIGITS = '012'
NUMERAL = '012-.eEbxzoZ% \n+'


def h_numeral(h):
    """A string is accepted as a number exactly when it is one, written in one of the notations."""
    c = h.calc('Computing')
    t = h.p('prefix') + h.str('t', (0, h.p('n')), h.p('alphabet'))
    c.vars['vs'] = (t, None)
    form = h.choose('form', h.p('forms'))
    got = tryev(h, c, form)
    if numeral(h, t):
        h.check(plain(h, got), 'a string that is a number is accepted')
        h.cover('accepted')
    else:
        h.check(failed(got), 'a string that is not a number is not accepted')
        h.cover('rejected')


FEW = ['va', 'vs', '2 m', 'true', '[va, 2]']
HARNESSES = [
    dict(name='reject-operators', fn=h_reject, quick={'m': 2, 'which': 'operators', 'others': FEW}, thorough={'m': 3, 'which': 'operators', 'others': ANYTHING}, bounds='every operator, one operand of every wrong kind, others of listed kinds', covers=['rejected']),
    dict(name='reject-functions', fn=h_reject, quick={'m': 2, 'which': 'functions', 'others': ['va', 'vs', '[va, 2]']}, thorough={'m': 2, 'which': 'functions', 'others': ANYTHING[::3]}, bounds='every function, one argument of every wrong kind, others of listed kinds', covers=['rejected']),
    dict(name='accept-operators', fn=h_accept, quick={'m': 2, 'which': 'operators'}, thorough={'m': 3, 'which': 'operators'}, bounds='every operator, operands of every accepted kind', covers=['accepted']),
    dict(name='accept-functions', fn=h_accept, quick={'m': 2, 'which': 'functions'}, thorough={'m': 3, 'which': 'functions'}, bounds='every function, arguments of every accepted kind', covers=['accepted']),
    dict(name='count', fn=h_count, quick={'m': 2, 'n': 4, 'others': ['va', 'vs'], 'some': 2}, thorough={'m': 2, 'n': 5, 'others': ['va', 'vs', 'vx', '[va, 2]'], 'some': 3}, bounds='up to n arguments', covers=['rejected']),
    dict(name='operands', fn=h_operands, quick={'m': 2}, thorough={'m': 3}, bounds='every operator without an operand', covers=['rejected']),
    dict(name='elements-operators', fn=h_elements, quick={'m': 2, 'n': 2, 'which': 'operators'}, thorough={'m': 2, 'n': 3, 'which': 'operators'}, bounds='arrays of n elements, one of them of every wrong kind', covers=['elements']),
    dict(name='elements-functions', fn=h_elements, quick={'m': 2, 'n': 2, 'which': 'functions'}, thorough={'m': 2, 'n': 3, 'which': 'functions'}, bounds='arrays of n elements, one of them of every wrong kind', covers=['elements']),
    dict(name='special', fn=h_special, quick={'m': 2, 'counts': [0, 1, 2, 5], 'wrong': 2}, thorough={'m': 2, 'counts': [0, 1, 2, 3, 4, 5, 6], 'wrong': 7}, bounds='every special function of one scipy ufunc', covers=['rejected']),
    dict(name='time', fn=h_time, quick={'m': 1, 'powers': [1, 2, -1]}, thorough={'m': 1, 'powers': [1, 2, -1, 3, -2]}, bounds='every unit, to listed powers', covers=['accepted', 'rejected']),
    dict(name='numeral', fn=h_numeral, quick={'n': 3, 'prefix': '', 'alphabet': NUMERAL, 'forms': ['vs + 0']}, thorough={'n': 4, 'prefix': '', 'alphabet': NUMERAL, 'forms': ['vs + 0', 'abs(vs)', 'max(vs, 1)', 'bin(vs)']}, bounds='strings starting  and up to n characters', covers=['accepted', 'rejected']),
    dict(name='numeral-base', fn=h_numeral, quick={'n': 3, 'prefix': '2z', 'alphabet': '012.zZ-\n ', 'forms': ['vs + 0']}, thorough={'n': 5, 'prefix': '2z', 'alphabet': '012.zZ-\n ', 'forms': ['vs + 0', 'abs(vs)', 'max(vs, 1)', 'bin(vs)']}, bounds='strings starting 2z and up to n characters', covers=['accepted', 'rejected']),
    dict(name='numeral-ten', fn=h_numeral, quick={'n': 3, 'prefix': '10z', 'alphabet': '01AEe.- ', 'forms': ['vs + 0']}, thorough={'n': 4, 'prefix': '10z', 'alphabet': '01AEe.- \n', 'forms': ['vs + 0', 'abs(vs)']}, bounds='strings starting 10z and up to n characters', covers=['accepted', 'rejected']),
    dict(name='numeral-bin', fn=h_numeral, quick={'n': 3, 'prefix': '-0b', 'alphabet': '012.bB-\n ', 'forms': ['vs + 0']}, thorough={'n': 5, 'prefix': '-0b', 'alphabet': '012.bB-\n ', 'forms': ['vs + 0', 'abs(vs)', 'max(vs, 1)', 'bin(vs)']}, bounds='strings starting -0b and up to n characters', covers=['accepted', 'rejected']),
    dict(name='numeral-hex', fn=h_numeral, quick={'n': 3, 'prefix': '0x', 'alphabet': '01.eExX-\n ', 'forms': ['vs + 0']}, thorough={'n': 4, 'prefix': '0x', 'alphabet': '01.eExX-\n ', 'forms': ['vs + 0', 'abs(vs)', 'max(vs, 1)', 'bin(vs)']}, bounds='strings starting 0x and up to n characters', covers=['accepted', 'rejected']),
    dict(name='numeral-exp', fn=h_numeral, quick={'n': 3, 'prefix': '1.2', 'alphabet': '01.eE-\n %', 'forms': ['vs + 0']}, thorough={'n': 5, 'prefix': '1.2', 'alphabet': '01.eE-\n %', 'forms': ['vs + 0', 'abs(vs)', 'max(vs, 1)', 'bin(vs)']}, bounds='strings starting 1.2 and up to n characters', covers=['accepted', 'rejected']),
]
