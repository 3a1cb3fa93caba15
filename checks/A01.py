"""A01: operations on arrays apply element by element."""
from common import tryev, tryevu, failed, Failed, val, equal
LIBS = ['objects.number', 'objects.items', 'objects.exceptions']
CALCS = ['Computing']


def scalar(h, c, text, vs=None):
    v, u = tryevu(h, c, text, vs)
    return val(h, v, u)


def numvars(h, names, lo, hi):
    N = h.lib('objects.number')
    return {n: N.Number(h.int(n, lo, hi)) for n in names}


# (template with {0} and {1}, may fail)
BIN = ['{0} + {1}', '{0} - {1}', '{0} * {1}', '{0} / {1}', '{0} % {1}', '{0} < {1}', '{0} == {1}', '{0} != {1}', '{0} >= {1}', '({0} > 0) and ({1} > 0)',
       '{0} {1}', 'lcm({0}, {1})', '({0} > {1}) then {0} else {1}', '{0} & {1}', '{0} \\ {1}']


def h_binary(h):
    """Both operands, or one of them, an array: the array of the results on corresponding elements."""
    c = h.calc('Computing')
    op = h.choose('op', h.p('ops'))
    n = h.choose('n', h.p('n'))
    shape = h.choose('shape', ['aa', 'as', 'sa'])
    if op == '{0} {1}':
        op = '{0} ({1})'
    left = ['va', 'vb', 'vc'][:n] if shape[0] == 'a' else ['va']
    right = ['vx', 'vy', 'vz'][:n] if shape[1] == 'a' else ['vx']
    vs = numvars(h, left + right, -h.p('m'), h.p('m'))
    tryev(h, c, 'vl = [' + ', '.join(left) + ']\nvr = [' + ', '.join(right) + ']', vs)
    lt = 'vl' if shape[0] == 'a' else 'va'
    rt = 'vr' if shape[1] == 'a' else 'vx'
    got = scalar(h, c, op.format(lt, rt))
    want = [scalar(h, c, op.format(left[i % len(left)], right[i % len(right)])) for i in range(n)]
    h.check(got[0] == 'array', 'an array results')
    equal(h, got, ('array', want), 'element by element')
    h.cover(shape)
    if any(w[0] == 'error' for w in want):
        h.cover('error')
    # the operands are as before
    for name, els in (('vl', left), ('vr', right)):
        v = c.vars[name][0]
        h.check(len(v) == len(els), 'operand length unchanged')
        for e, x in zip(v, els):
            h.check(e.unit is None and h.q(e.value) == h.q(vs[x]), 'operand unchanged')


UN = ['~{0}', 'not ({0} > 2)', 'abs({0})', 'floor({0} / 2)', 'fact({0})', '{0}^2', 'bin({0})', '{0} as percentage', "{0} +$ 'x'", '({0} meters) to centimeters', '-1 * {0}', 'round({0} / 4, 1)', '{0}^-1']


def h_unary(h):
    c = h.calc('Computing')
    op = h.choose('op', UN)
    n = h.choose('n', h.p('n'))
    names = ['va', 'vb', 'vc'][:n]
    vs = numvars(h, names, -h.p('m'), h.p('m'))
    tryev(h, c, 'vl = [' + ', '.join(names) + ']', vs)
    got = scalar(h, c, op.format('vl'))
    want = [scalar(h, c, op.format(x)) for x in names]
    h.check(got[0] == 'array', 'an array results')
    equal(h, got, ('array', want), 'element by element')
    h.cover('done')
    if any(w[0] == 'error' for w in want):
        h.cover('error')
    v = c.vars['vl'][0]
    h.check(len(v) == n, 'operand length unchanged')
    for e, x in zip(v, names):
        h.check(e.unit is None and h.q(e.value) == h.q(vs[x]), 'operand unchanged')


UNITOPS = ['{0} + {1}', '{0} - {1}', '{0} * {1}', '{0} / {1}', '{0} < {1}', '{0} == {1}', '{0} to days', 'abs({0})']


def h_units(h):
    """Elements keep their own units."""
    c = h.calc('Computing')
    op = h.choose('op', h.p('ops'))
    us = h.choose('units', [('weeks', 'days', 'days', 'weeks'), ('days', 'meters', 'weeks', 'days'), ('', 'days', 'weeks', ''), ('weeks', '', '', '')][:h.p('us', 4)])
    shape = h.choose('shape', ['aa', 'as', 'sa'])
    vs = numvars(h, ['va', 'vb', 'vx', 'vy'], -h.p('m'), h.p('m'))
    names = ['va', 'vb', 'vx', 'vy']
    q = ['(%s %s)' % (n, u) if u else n for n, u in zip(names, us)]
    left = q[:2] if shape[0] == 'a' else q[:1]
    right = q[2:] if shape[1] == 'a' else q[2:3]
    if shape == 'sa' and '{1}' not in op:
        return
    lt = '[' + ', '.join(left) + ']' if shape[0] == 'a' else left[0]
    rt = '[' + ', '.join(right) + ']' if shape[1] == 'a' else right[0]
    got = scalar(h, c, op.format(lt, rt), vs)
    want = [scalar(h, c, op.format(left[i % len(left)], right[i % len(right)])) for i in range(2)]
    h.check(got[0] == 'array', 'an array results')
    equal(h, got, ('array', want), 'element by element')
    h.cover('done')


def h_nested(h):
    """Nested arrays are processed level by level; an error stays in its own position."""
    c = h.calc('Computing')
    op = h.choose('op', ['{0} + {1}', '{0} / {1}', '{0} < {1}'])
    kind = h.choose('kind', ['nested scalar', 'scalar nested', 'nested nested', 'nested flat'])
    vs = numvars(h, ['va', 'vb', 'vc', 'vx', 'vy', 'vz'], -h.p('m'), h.p('m'))
    N1, N2 = [['va', 'vb'], ['vc']], [['vx', 'vy'], ['vz']]

    def text(x):
        return x if isinstance(x, str) else '[' + ', '.join(text(e) for e in x) + ']'

    def apply(x, y):
        if isinstance(x, str) and isinstance(y, str):
            return scalar(h, c, op.format(x, y))
        k = len(x) if not isinstance(x, str) else len(y)
        if not isinstance(x, str) and not isinstance(y, str) and len(x) != len(y):
            return ('error',)
        return ('array', [apply(x if isinstance(x, str) else x[i], y if isinstance(y, str) else y[i]) for i in range(k)])

    l, r = {'nested scalar': (N1, 'vx'), 'scalar nested': ('va', N2), 'nested nested': (N1, N2), 'nested flat': (N1, ['vx', 'vy'])}[kind]
    got = scalar(h, c, op.format(text(l), text(r)), vs)
    equal(h, got, apply(l, r), 'nested elements')
    h.cover(kind)


def h_lengths(h):
    """Arrays of different lengths are an error."""
    c = h.calc('Computing')
    op = h.choose('op', ['{0} + {1}', '{0} < {1}', '{0} ^ {1}', 'gcd({0}, {1})', '{0} +$ {1}', 'round({0}, {1})', 'sum({0}, {1})', 'max({0}, {1})'])
    k, m = h.choose('lengths', [(1, 2), (2, 1), (2, 3), (3, 2), (3, 1)])
    names = ['va', 'vb', 'vc', 'vx', 'vy', 'vz']
    vs = numvars(h, names[:k] + names[3:3 + m], 1, h.p('m'))
    got = scalar(h, c, op.format('[' + ', '.join(names[:k]) + ']', '[' + ', '.join(names[3:3 + m]) + ']'), vs)
    h.check(got[0] == 'error', 'different lengths are an error')
    h.cover('done')


def h_error_chain(h):
    """An error in one position neither spreads to others nor disappears when the array is used again."""
    c = h.calc('Computing')
    vs = numvars(h, ['va', 'vb', 'vx', 'vy'], -2, 2)
    got = scalar(h, c, '[va, vb] / [vx, vy] + 1', vs)
    want = [scalar(h, c, 'va / vx + 1'), scalar(h, c, 'vb / vy + 1')]
    equal(h, got, ('array', want), 'chained')
    h.check(want[0][0] == ('error' if h.is_true(h.q(vs['vx']) == 0) else 'number'), 'division by zero')
    h.cover('done')


HARNESSES = [
    dict(name='binary', fn=h_binary, quick={'n': [1, 2], 'm': 3, 'ops': ['{0} + {1}', '{0} / {1}', '{0} < {1}', '({0} > 0) and ({1} > 0)', '{0} {1}', '({0} > {1}) then {0} else {1}', '{0} & {1}', '{0} \\ {1}']},
         thorough={'n': [1, 2, 3], 'm': 20, 'ops': BIN}, bounds='arrays of up to 2 (3) whole numbers up to m', covers=['aa', 'as', 'sa', 'error']),
    dict(name='unary', fn=h_unary, quick={'n': [1, 2], 'm': 5}, thorough={'n': [1, 2, 3], 'm': 10}, bounds='arrays of up to 2 (3) whole numbers up to m', covers=['done', 'error']),
    dict(name='units', fn=h_units, quick={'m': 3, 'ops': ['{0} + {1}', '{0} < {1}', '{0} to days', '{0} * {1}'], 'us': 3}, thorough={'m': 4, 'ops': UNITOPS}, bounds='two elements with units, whole numbers up to m', covers=['done']),
    dict(name='nested', fn=h_nested, quick={'m': 5}, thorough={'m': 20}, bounds='two levels of nesting', covers=['nested scalar', 'scalar nested', 'nested nested', 'nested flat']),
    dict(name='lengths', fn=h_lengths, quick={'m': 5}, thorough={'m': 50}, bounds='lengths up to 3', covers=['done']),
    dict(name='error_chain', fn=h_error_chain, quick={}, thorough={}, bounds='whole numbers -2..2', covers=['done']),
]
