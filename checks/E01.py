"""E01: operators group by the published precedence and associativity."""
from common import tryev, tryevu, failed, run, val, equal, snap, samevars
LIBS = ['objects.number', 'objects.items', 'objects.exceptions']
CALCS = ['Computing']

# the published precedence, tightest first ('' is multiplication of adjacent values)
LEVELS = [['^'], ['not', '~'], ['=~', '!~'], ['UNIT'], ['ASSIGN'], [''], ['*', '/', '%', '*$', '\\'], ['+', '-', '+$', '+%', '-%'], ['<<', '>>'],
          ['<', '>', '<=', '>=', '<$', '>$', '<=$', '>=$', '<~', '>~', '<=~', '>=~'], ['==', '!=', '==$', '!=$', '==~', '!=~'], ['&'], ['|', '^^'], ['and', 'or', 'xor'], ['then'], ['to', 'as'],
          ['=', '++', '--', '+=', '-=', '*=', '/=', '^=', '%=', '\\=', '||=']]
LEVEL = {op: i for i, l in enumerate(LEVELS) for op in l}


def bracketed(operands, ops):
    """Full bracketing of operand op operand op ... by level, left to right within one."""
    items = list(operands)
    ops = list(ops)
    while len(ops) > 0:
        k = min(range(len(ops)), key=lambda i: (LEVEL[ops[i]], i))
        items[k:k + 2] = ['(%s %s %s)' % (items[k], ops[k], items[k + 1])]
        ops[k:k + 1] = []
    return items[0]


def compare(h, c, plain, full):
    got = run(h, c, plain)
    want = run(h, c, full)
    equal(h, got, want, 'the plain expression evaluates as the bracketed one')
    h.cover('error' if want[0] == 'error' else 'value')
    return want


def variables(h, c, names, kinds, m):
    N = h.lib('objects.number')
    kind = h.choose('kinds', kinds)
    for i, n in enumerate(names):
        if kind[i] == 'n':
            c.vars[n] = (N.Number(h.int(n, 1, m)), None)
        elif kind[i] == 'b':
            c.vars[n] = (h.bool(n), None)
        else:
            c.vars[n] = (h.str(n, 1, 'ab2'), None)


def h_pairs(h):
    """Every pair of binary operators."""
    c = h.calc('Computing')
    ops = h.p('ops')
    o1, o2 = h.choose('op1', ops), h.choose('op2', ops)
    logic = ('and', 'or', 'xor')
    k = ['nnn']
    if o1 in logic or o2 in logic:
        k = ['bbb'] if o1 in logic and o2 in logic else ['bnn'] if o1 in logic else ['nnb']
    elif '$' in o1 + o2 or o1.endswith('~') or o2.endswith('~'):
        k = ['nnn', 'sns'] if o1 + o2 != '*$*$' else ['snn']
    names = ['va', 'vb', 'vc']
    variables(h, c, names, k, h.p('m'))
    names2 = ['(vb)' if o1 == '' and n == 'vb' else '(vc)' if o2 == '' and n == 'vc' else n for n in names]
    plain = '%s %s %s %s %s' % (names2[0], o1, names2[1], o2, names2[2])
    compare(h, c, plain, bracketed(names, [o1, o2]))


def h_triples(h):
    """Three operators, one or two of every level."""
    c = h.calc('Computing')
    ops = [h.choose('op%d' % i, h.p('ops')) for i in range(3)]
    names = ['va', 'vb', 'vc', 'vd']
    if any(o in ('and', 'or', 'xor') for o in ops):
        if ops[1] not in ('and', 'or', 'xor') or any(o not in ('<', '==') for o in (ops[0], ops[2])):
            return
    variables(h, c, names, ['nnnn'], h.p('m'))
    names2 = [n if i == 0 or ops[i - 1] != '' else '(' + n + ')' for i, n in enumerate(names)]
    plain = names2[0]
    for o, n in zip(ops, names2[1:]):
        plain += ' ' + o + ' ' + n
    compare(h, c, plain, bracketed(names, ops))


# prefix operators, conditionals, units, conversions and assignments: a text and its full bracketing
FORMS = [
    ('~ va ^ vb', '~ (va ^ vb)'), ('~ va * vb', '(~ va) * vb'), ('va + ~ vb', 'va + (~ vb)'), ('va * ~ vb + vc', '(va * (~ vb)) + vc'), ('~ ~ va', '~ (~ va)'), ('~ va & vb', '(~ va) & vb'), ('~ va (vb)', '(~ va) (vb)'),
    ('not va < vb', '(not va) < vb'), ('not (va < vb) and va < vc', '(not (va < vb)) and (va < vc)'), ('not not (va < vb)', 'not (not (va < vb))'), ('va < vb and not (vb < vc)', '(va < vb) and (not (vb < vc))'),
    ('va < vb then vc else va', '(va < vb) then vc else va'), ('va < vb and vb < vc then va + 1 else vb * 2', '((va < vb) and (vb < vc)) then (va + 1) else (vb * 2)'),
    ('va < vb then va < vc else vb == vc', '(va < vb) then (va < vc) else (vb == vc)'), ('va < vb then vb < vc else va < vc then 1 else 2', '((va < vb) then (vb < vc) else (va < vc)) then 1 else 2'),
    ('va < vb or vb < vc and va < vc', '((va < vb) or (vb < vc)) and (va < vc)'), ('va < vb xor vb < vc or va < vc', '((va < vb) xor (vb < vc)) or (va < vc)'),
    ('va days + vb weeks', '(va days) + (vb weeks)'), ('va weeks - vb days * vc', '(va weeks) - ((vb days) * vc)'), ('va * vb days', 'va * (vb days)'), ('va meters / vb seconds', '(va meters) / (vb seconds)'), ('va meters / seconds', 'va (meters / seconds)'),
    ('va days ^ 2', 'va (days ^ 2)'), ('va days * vb', '(va days) * vb'), ('va days vb days', '(va days) * (vb days)'), ('va meters seconds', '(va meters) * (1 seconds)'), ('va ^ 2 days', '(va ^ 2) (days)'), ('va / vb days', 'va / (vb days)'),
    ('va days + vb weeks to weeks', '((va days) + (vb weeks)) to weeks'), ('va days to weeks', '(va days) to weeks'), ('va < vb then va days else vb weeks to days', '((va < vb) then (va days) else (vb weeks)) to days'),
    ('va / 7 as percentage', '(va / 7) as percentage'), ('va weeks < vb days', '(va weeks) < (vb days)'), ('va weeks == vb days and va < vc', '((va weeks) == (vb days)) and (va < vc)'),
    ('x = va + vb * vc', 'x = (va + (vb * vc))'), ('x = va < vb then vb else vc', 'x = ((va < vb) then vb else vc)'), ('x = va days to weeks', 'x = ((va days) to weeks)'), ('va += vb * vc', 'va += (vb * vc)'), ('va -= vb - vc', 'va -= (vb - vc)'),
    ('va *= vb + vc', 'va *= (vb + vc)'), ('x ||= va == vb', 'x ||= (va == vb)'), ("va + vb +$ 'x'", "(va + vb) +$ 'x'"), ("'x' *$ va + vb", "('x' *$ va) + vb"), ("'a' +$ va == vb", "('a' +$ va) == vb"), ("'a' +$ va ==$ 'a' +$ vb", "('a' +$ va) ==$ ('a' +$ vb)"),
    ("va =~ '^[12]$' and vb < vc", "(va =~ '^[12]$') and (vb < vc)"), ("va < vb == vc < va", '(va < vb) == (vc < va)'), ('va + vb << vc - va', '(va + vb) << (vc - va)'), ('va << vb & vc | va', '((va << vb) & vc) | va'), ('va | vb & vc', 'va | (vb & vc)'),
    ('va ^^ vb | vc', '(va ^^ vb) | vc'), ('va < vb & vc', '(va < vb) & vc'), ('va == vb | vc', '(va == vb) | vc'), ('va ^ vb ^ vc', '(va ^ vb) ^ vc'), ('va - vb - vc', '(va - vb) - vc'), ('va / vb / vc', '(va / vb) / vc'), ('va % vb * vc', '(va % vb) * vc'),
    ('va (vb) / vc (va)', '(va * vb) / (vc * va)'), ('va (vb) ^ vc', 'va * (vb ^ vc)'), ('va / vb (vc)', 'va / (vb * vc)'), ('abs(va - vb) (vc)', '(abs(va - vb)) * vc'), ('-2 ^ va', '(-2) ^ va'), ('va -1', 'va * (-1)' if False else 'va - 1'), ('va + -1', 'va + (-1)'),
    ('[va + vb * vc, va]', '[(va + (vb * vc)), (va)]'), ('abs(va - vb * vc)', 'abs((va - (vb * vc)))'), ('max(va - vb, vc * va + 1)', 'max((va - vb), ((vc * va) + 1))'), ('va +% vb + vc', '(va +% vb) + vc'), ('va +% vb * vc', 'va +% (vb * vc)'),
]


def h_forms(h):
    c = h.calc('Computing')
    plain, full = h.choose('form', FORMS)
    N = h.lib('objects.number')
    for n in ('va', 'vb', 'vc'):
        c.vars[n] = (N.Number(h.int(n, 1, h.p('m'))), None)
    state = dict(c.vars)
    got = run(h, c, plain)
    after = snap(h, c)
    c.vars.clear()
    c.vars.update(state)
    want = run(h, c, full)
    equal(h, got, want, 'the plain expression evaluates as the bracketed one')
    samevars(h, snap(h, c), after, 'variables')
    h.cover('error' if want[0] == 'error' else 'value')


def h_brackets(h):
    """Brackets around any part that is grouped already change nothing."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    for n in ('va', 'vb', 'vc'):
        c.vars[n] = (N.Number(h.int(n, -h.p('m'), h.p('m'))), None)
    t = h.choose('t', ['{0} + {1} * {2}', '{0} * {1} - {2}', '{0} < {1} then {2} else {0}', '{0} - {1} / {2}', '{0} {1}', 'abs({0} - {1})', '[{0}, {1}]', '{0} days + {1} weeks', '{0} == {1} or {0} > {2}'])
    w = h.choose('w', [('va', 'vb', 'vc'), ('(va)', 'vb', '(vc)'), ('((va))', '( vb )', 'vc'), ('(((va)))', '(((vb)))', '(((vc)))'), ('( va)', '(vb )', '(\tvc\t)')])
    o = h.choose('o', ['{}', '({})', '(({}))', '( {} )'])
    if t == '{0} {1}' and '(' not in w[1]:
        return
    plain = o.format(t.format(*w))
    base = t.format('va', '(vb)' if t == '{0} {1}' else 'vb', 'vc')
    compare(h, c, plain, base)


ALL = ['^', '', '*', '/', '%', '*$', '\\', '+', '-', '+$', '+%', '-%', '<<', '>>', '<', '>', '<=', '>=', '<$', '>=$', '<~', '>=~', '==', '!=', '==$', '!=~', '&', '|', '^^', 'and', 'or', 'xor']
SOME = ['^', '', '*', '-', '<', '==', '&', '|', 'and']

HARNESSES = [
    dict(name='pairs', fn=h_pairs, quick={'ops': ['^', '', '*', '/', '%', '*$', '\\', '+', '-', '+$', '-%', '<<', '<', '>=', '<~', '==', '!=$', '&', '|', '^^', 'and', 'or', 'xor'], 'm': 2}, thorough={'ops': ALL, 'm': 3}, bounds='all pairs of operators on numbers 1..m, booleans and strings of one character',
         covers=['value']),
    dict(name='triples', fn=h_triples, quick={'ops': ['', '*', '-', '<', '==', '&', '|', 'and'], 'm': 2}, thorough={'ops': SOME + ['+', '/', '^^', 'or'], 'm': 3}, bounds='all triples of operators on numbers 1..m', covers=['value']),
    dict(name='forms', fn=h_forms, quick={'m': 3}, thorough={'m': 5}, bounds='listed texts with numbers 1..m', covers=['value', 'error']),
    dict(name='brackets', fn=h_brackets, quick={'m': 3}, thorough={'m': 50}, bounds='listed texts with numbers up to m', covers=['value']),
]
