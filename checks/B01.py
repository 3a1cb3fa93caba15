"""B01: boolean operators follow truth tables and isolate errors in untaken branches."""
from common import tryev, tryevu, failed, run, val, equal
LIBS = ['objects.number', 'objects.items', 'objects.exceptions']
CALCS = ['Computing']

# text, reference on (a, b, c)
FORMULAS = [
    ('va and vb', lambda a, b, c: a and b), ('va or vb', lambda a, b, c: a or b), ('va xor vb', lambda a, b, c: a != b), ('not va', lambda a, b, c: not a),
    ('not (va and vb)', lambda a, b, c: not (a and b)), ('(not va) or (not vb)', lambda a, b, c: (not a) or (not b)), ('va and (vb or vc)', lambda a, b, c: a and (b or c)),
    ('(va and vb) or vc', lambda a, b, c: (a and b) or c), ('(va xor vb) xor vc', lambda a, b, c: (a != b) != c), ('not not va', lambda a, b, c: a),
    ('va then vb else vc', lambda a, b, c: b if a else c), ('(va or vb) then (not vc) else va', lambda a, b, c: (not c) if (a or b) else a),
    ('(va then vb else vc) and va', lambda a, b, c: (b if a else c) and a), ('(va and (not vb)) or ((not va) and vb)', lambda a, b, c: a != b),
    ('va and vb and vc', lambda a, b, c: a and b and c), ('va or vb or vc', lambda a, b, c: a or b or c), ('va xor true', lambda a, b, c: not a), ('va and TRUE', lambda a, b, c: a),
    ('va or False', lambda a, b, c: a), ('(1 < 2) and va', lambda a, b, c: a), ('va then true else false', lambda a, b, c: a)]


def h_truth(h):
    c = h.calc('Computing')
    text, f = h.choose('formula', FORMULAS)
    bs = [h.bool(n) for n in 'abc']
    for n, b in zip('abc', bs):
        c.vars['v' + n] = (b, None)
    got, u = tryevu(h, c, text)
    ref = [bool(b) for b in bs]
    h.check(not failed(got) and u is None and type(got).__name__ in ('bool', 'SymBool'), 'a boolean results')
    h.check(h.is_true(got) == f(*ref), 'the truth table')
    h.cover('true' if f(*ref) else 'false')


def h_compared(h):
    """Operands that are comparisons of numbers."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    m = h.p('m')
    x, y = h.int('x', -m, m), h.int('y', -m, m)
    text, f = h.choose('formula', [('(vx < vy) and (vy < 5)', lambda: x < y and y < 5), ('(vx == vy) or (vx > 3)', lambda: x == y or x > 3), ('(vx >= 0) xor (vy >= 0)', lambda: (x >= 0) != (y >= 0)),
                                   ('not (vx <= vy)', lambda: x > y), ('vx < vy and vy < 5', lambda: x < y and y < 5), ('vx == vy or vx != 3', lambda: x == y or x != 3), ('vx < vy then vx > 0 else vy > 0', lambda: x > 0 if x < y else y > 0)])
    got = tryev(h, c, text, {'vx': N.Number(x), 'vy': N.Number(y)})
    want = bool(f())
    h.check(not failed(got), 'a boolean results')
    h.check(h.is_true(got) == want, 'the truth table')
    h.cover('true' if want else 'false')


# branches: text, needs a number n / m to be non-zero to succeed
def branch(h, c, name, kinds):
    """A branch expression that may fail; returns its text and what it evaluates to."""
    N = h.lib('objects.number')
    k = h.choose('kind_' + name, kinds)
    v, w = 'v' + name + 'n', 'v' + name + 'd'
    if k == 'string':
        c.vars[v] = (h.str(name, (0, 2), 'a b1'), None)
        return v, ('string', c.vars[v][0], None)
    if k == 'bool':
        c.vars[v] = (h.bool(name), None)
        return v, ('bool', c.vars[v][0], None)
    n = h.int(name + '_n', -5, 5)
    c.vars[v] = (N.Number(n), None)
    if k == 'unit':
        return '(%s days)' % v, ('number', h.q(n), 'days^1')
    if k == 'array':
        return '[%s, 2]' % v, ('array', [('number', h.q(n), None), ('number', h.q(2), None)])
    d = h.int(name + '_d', -2, 2)
    c.vars[w] = (N.Number(d), None)
    text = {'div': '%s / %s' % (v, w), 'bracket': '(%s / %s)' % (v, w), 'nested': '((1 + %s / %s) - 1)' % (v, w), 'func': 'abs(%s / %s)' % (v, w)}[k]
    if h.is_true(d == 0):
        return text, ('error',)
    q = h.q(n, 1) / h.q(d)
    return text, ('number', abs(q) if k == 'func' else q, None)


def h_branch(h):
    """c then a else b: the value and unit of the branch taken, whatever the other one is."""
    c = h.calc('Computing')
    kinds = h.p('kinds')
    left, lw = branch(h, c, 'l', kinds)
    right, rw = branch(h, c, 'r', kinds)
    cond = h.choose('cond', ['var', 'compare', 'literal'])
    if cond == 'var':
        b = h.bool('c')
        c.vars['vc'] = (b, None)
        ct = 'vc'
        taken = bool(b)
    elif cond == 'compare':
        N = h.lib('objects.number')
        x = h.int('c', -2, 2)
        c.vars['vc'] = (N.Number(x), None)
        ct = 'vc < 1'
        taken = h.is_true(x < 1)
    else:
        taken = h.choose('c', [True, False])
        ct = 'true' if taken else 'false'
    got = run(h, c, '%s then %s else %s' % (ct, left, right))
    equal(h, got, lw if taken else rw, 'the branch taken')
    h.cover('taken ' + ('error' if (lw if taken else rw)[0] == 'error' else 'value'))
    if (rw if taken else lw)[0] == 'error':
        h.cover('untaken error')


def h_branch_chain(h):
    """Branches that are conditionals themselves."""
    c = h.calc('Computing')
    a, b = h.bool('a'), h.bool('b')
    c.vars['va'], c.vars['vb'] = (a, None), (b, None)
    form = h.choose('form', ['va then %s else (vb then %s else %s)', 'va then (vb then %s else %s) else %s', '(va then vb else (not vb)) then %s else (va then %s else %s)'])
    parts = [branch(h, c, n, ['bracket']) for n in 'xyz'[:2]]
    parts.append(('(vz)', ('number', h.q(7), None)))
    c.vars['vz'] = (h.lib('objects.number').Number(7), None)
    rot = h.choose('rot', [0, 1, 2])
    parts = parts[rot:] + parts[:rot]
    got = run(h, c, form % tuple(p[0] for p in parts))
    A, B = bool(a), bool(b)
    k = {'va then %s else (vb then %s else %s)': 0 if A else 1 if B else 2, 'va then (vb then %s else %s) else %s': (0 if B else 1) if A else 2,
         '(va then vb else (not vb)) then %s else (va then %s else %s)': 0 if A == B else 1 if A else 2}[form]
    equal(h, got, parts[k][1], 'the branch taken')
    h.cover(str(k))


def h_errors(h):
    """An error in the right operand matters exactly if the left one does not decide."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    a = h.bool('a')
    d = h.int('d', -2, 2)
    c.vars['va'], c.vars['vd'] = (a, None), (N.Number(d), None)
    op = h.choose('op', ['and', 'or', 'xor'])
    form = h.choose('form', ['va {} (1 / vd > 0)', '(1 / vd > 0) {} va', 'va {} (not (1 / vd > 0))', '(va {} (1 / vd > 0)) == (va {} (1 / vd > 0))', "va {} 'text'", 'va {} vundefined', 'va {} 5', 'va {} (vd / 0)'])
    A = bool(a)
    zero = h.is_true(d == 0)
    b = None if zero else h.is_true(d > 0)
    got = tryev(h, c, form.format(op, op))
    if form.endswith('}} {}') or form in ("va {} 'text'", 'va {} vundefined', 'va {} 5'):
        # not a boolean at all
        h.check(failed(got), 'an operand that is not a boolean is an error')
        h.cover('wrong type')
        return
    if form == 'va {} (vd / 0)':
        b = None
    if form == '(1 / vd > 0) {} va':
        left, right = b, A
    else:
        left, right = A, (None if b is None else (not b)) if 'not' in form else b
    want = None
    if left is not None:
        if op == 'and':
            want = False if left is False else right
        elif op == 'or':
            want = True if left is True else right
        elif right is not None:
            want = left != right
    if '==' in form and want is not None:
        want = True
    if want is None:
        h.check(failed(got), 'an error in a deciding operand is an error')
        h.cover('error')
    else:
        h.check(not failed(got), 'an error that does not matter does not affect the result')
        h.check(h.is_true(got) == want, 'the result')
        h.cover('value')


def h_condition(h):
    """The condition must be a boolean, and an error in it is an error."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    d = h.int('d', -1, 1)
    s = h.str('s', (0, 1), 't1')
    c.vars['vd'], c.vars['vs'] = (N.Number(d), None), (s, None)
    form = h.choose('form', ['vd', 'vs', '(1/0)', '(1 / 0 > 1)', 'vundefined', '(1 / vd > 0)', 'not vd', 'not (1 / vd > 0)', '(2 days)'])
    got = run(h, c, form + ' then 1 else 2')
    if '1 / vd' in form and not h.is_true(d == 0):
        t = h.is_true(d > 0) != form.startswith('not')
        equal(h, got, ('number', h.q(1 if t else 2), None), 'the branch taken')
        h.cover('value')
    else:
        h.check(got[0] == 'error', 'an error')
        h.cover('error')


def h_literal(h):
    """true and false are recognised in any letter case, as whole words."""
    c = h.calc('Computing')
    w = h.choose('w', [True, False])
    word = 'true' if w else 'false'
    flip = [h.bool('u%d' % i) for i in range(len(word))]
    text = ''.join(ch.upper() if h.is_true(f) else ch for ch, f in zip(word, flip))
    got = run(h, c, 'not ' + text)
    equal(h, got, ('bool', not w, None), 'boolean literal')
    got = run(h, c, text + 'x = 1\n' + text + 'x')
    equal(h, got, ('number', h.q(1), None), 'a longer word is a variable')
    h.cover('done')


HARNESSES = [
    dict(name='truth', fn=h_truth, quick={}, thorough={}, bounds='all values of three booleans', covers=['true', 'false']),
    dict(name='compared', fn=h_compared, quick={'m': 10}, thorough={'m': 1000}, bounds='whole numbers up to m', covers=['true', 'false']),
    dict(name='branch', fn=h_branch, quick={'kinds': ['div', 'bracket', 'unit', 'string']}, thorough={'kinds': ['div', 'bracket', 'nested', 'func', 'unit', 'string', 'bool']}, bounds='branches n/d with n up to 5 and d up to 2, quantities, strings of up to two characters',
         covers=['taken error', 'taken value', 'untaken error']),
    dict(name='branch_chain', fn=h_branch_chain, quick={}, thorough={}, bounds='three branches n/d with n up to 5 and d up to 2', covers=['0', '1', '2']),
    dict(name='errors', fn=h_errors, quick={}, thorough={}, bounds='d up to 2', covers=['error', 'value', 'wrong type']),
    dict(name='condition', fn=h_condition, quick={}, thorough={}, bounds='d up to 1, strings of up to one character', covers=['error', 'value']),
    dict(name='literal', fn=h_literal, quick={}, thorough={}, bounds='every combination of letter cases', covers=['done']),
]
