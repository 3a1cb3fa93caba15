"""E05: a multi-statement text behaves as its statements run one after another."""
from common import tryev, failed, run, val, equal, snap, samevars
LIBS = ['objects.number', 'objects.items', 'objects.exceptions']
CALCS = ['Computing']

FULL = ['va', 'x = va + 1', 'x', 'va += vb', 'vb = va * 2', '1 / va', 'x = 1 / vb', 'vl = [va, vb]', 'element(vl, 2)', 'delete(x)', 'x ||= 5', 'va++', "vs = vs +$ 'a'", '# comment', '', 'va to days', 'va days # note', 'ff = {PARAM1 + va}', '@ff(1)', '[1 / va, 2]',
        'abs(\nva\n)', 'va +\nvb', '[va,\n vb]', 'ff = {x = PARAM1\nx * va}', 'reset()', "'a b'", 'va == vb then\n1 else\n 2', 'va missingunit', 'vb -= 1 days', 'vl[0]', 'x = vl', 'va = vs', '@missing(1)', "length('x', va)", 'true', 'va % vb']
SOME = ['va', 'x = va + 1', 'x', 'va += vb', '1 / va', 'vl = [va, vb]', 'delete(x)', "vs = vs +$ 'a'", '# comment', '', 'va to days', '[1 / va, 2]', 'va +\nvb', '@ff(1)', 'va++']
LAST = ['va', 'x', 'vs', '1 / vb', '', 'x = vb', '[va, vl]', '@ff(vb)', 'reset()']


def setup(h, c, m):
    N = h.lib('objects.number')
    for n in ('va', 'vb'):
        c.vars[n] = (N.Number(h.int(n, -1, m)), None)
    c.vars['vs'] = (h.str('vs', 1, "a5"), None)
    c.vars['vl'] = ([h.lib('objects.items').OperandResult(N.Number(1), None, None), h.lib('objects.items').OperandResult(N.Number(2), None, None)], None)
    tryev(h, c, 'ff = {PARAM1 * 2}')


def calc(h, c, text, flags=None):
    """(results of the statements, whether it failed)"""
    E = h.lib('objects.exceptions')
    try:
        r, bad = c.calculate(text, flags), False
    except E.CalculatingException as e:
        h.check(e.has_response(), 'an error carries a response')
        r, bad = e.response, True
    return [val(h, x.value, x.unit) if x.has_result() else ('nothing',) for x in r.results], bad


def compare(h, got, want, label):
    h.check(len(got) == len(want), label + ': how many results')
    for a, b in zip(got, want):
        if b[0] == 'nothing':
            h.check(a[0] == 'nothing', label + ': no result')
        else:
            h.check(a[0] != 'nothing', label + ': a result')
            equal(h, a, b, label)


def h_statements(h):
    c = h.calc('Computing')
    setup(h, c, h.p('m'))
    n = h.p('n')
    pools = h.p('pools')
    st = [h.choose('s%d' % i, {'full': FULL, 'some': SOME, 'last': LAST}[pools[i]]) for i in range(n)]
    E = h.lib('objects.exceptions')
    # one by one on the same calculator
    before = dict(c.vars)
    want, bad = [], False
    for s in st:
        r, bad = calc(h, c, s if s else ' ')
        if bad:
            # nothing of a failing statement is reported
            h.check(len(r) == 0, 'the results before the failing statement')
            break
        want += r if len(r) else [('nothing',)]
    after = snap(h, c)
    c.vars = dict(before)
    sep = h.choose('sep', h.p('seps'))
    text = sep.join(s if s else ' ' for s in st)
    got, gotbad = calc(h, c, text)
    h.check(gotbad == bad, 'whether the text fails')
    got = [g for g in got if g[0] != 'nothing']
    want = [g for g in want if g[0] != 'nothing']
    compare(h, got, want, 'the results')
    samevars(h, after, snap(h, c), 'the variables')
    h.cover('error' if bad else 'value')


def h_state(h):
    """The state reported with each result is the one after its statement."""
    c = h.calc('Computing')
    setup(h, c, h.p('m'))
    st = [h.choose('s%d' % i, [s for s in SOME if s.strip()]) for i in range(2)] + [h.choose('s2', ['va', 'x', 'va += 1'])]
    E = h.lib('objects.exceptions')
    before = dict(c.vars)
    states = []
    for s in st:
        r, bad = calc(h, c, s)
        if bad:
            return
        states.append(snap(h, c))
    c.vars = dict(before)
    r = c.calculate('\n'.join(st), {'include_state': True})
    h.check(len(r.results) == len(states), 'one result per statement')
    for x, want in zip(r.results, states):
        got = {k: val(h, v[0], v[1]) for k, v in x.state.items()}
        samevars(h, want, got, 'the state after a statement')
    h.cover('value')


OPS = ['+', '-', '*', '/', '^', '%', '\\', '&', '|', '^^', '<<', '>>', '<', '>', '<=', '>=', '==', '!=', '+%', '-%', '<$', '==$', '!=$', '<~', '==~', '=~', '!~', '+$', '*$', 'and', 'or', 'xor', '=', '+=', '-=', '*=', '/=', '^=', '%=', '\\=', '||=', 'to', 'as']


def h_continued(h):
    """A line break after an operator that needs a right operand continues the statement."""
    c = h.calc('Computing')
    setup(h, c, h.p('m'))
    form = h.choose('form', ['binary', 'binary-chain', 'function', 'array', 'inner', 'string', 'prefix', 'then', 'else', 'units', 'postfix', 'nothing'])
    br = h.choose('break', ['\n', '\n\n', ' \n ', '# it\'s (\n', '\n# x\n'])
    ops = OPS if form in ('binary',) else ['+', '<', '==$', 'and', '=', 'to'] if form not in ('units',) else ['+', '/', '*', 'to']
    op = h.choose('op', ops) if form not in ('prefix', 'then', 'else', 'postfix', 'nothing') else ''
    right = 'days' if op == 'to' else 'percentage' if op == 'as' else '(va < vb)' if op in ('and', 'or', 'xor') else 'vb'
    left = '(va > vb)' if op in ('and', 'or', 'xor') else 'va'
    second = h.choose('second', h.p('second'))
    t = {'binary': '%s %s{}%s' % (left, op, right), 'binary-chain': '%s %s{}%s +{}1' % (left, op, right), 'function': 'abs(vb) %s{}%s' % (op, right), 'array': '[va, vb] %s{}%s' % (op, right), 'inner': '((va)) %s{}(%s)' % (op, right), 'string': "'a' %s{}'b'" % op,
         'prefix': 'not{}va < vb', 'then': 'va < vb then{}1 else 2', 'else': 'va < vb then 1 else{}2', 'units': '(va days) %s{}%s' % (op, 'weeks' if op == 'to' else '(vb weeks)'), 'postfix': 'va++', 'nothing': 'va'}[form]
    if form in ('binary-chain',) and op in ('to',):
        return
    whole = t.replace('{}', ' ')
    broken = t.replace('{}', br)
    before = dict(c.vars)
    want, bad = calc(h, c, whole)
    if not bad and second:
        r, bad = calc(h, c, second)
        want += r
    after = snap(h, c)
    c.vars = dict(before)
    got, gotbad = calc(h, c, broken + '\n' + second)
    h.check(gotbad == bad, 'whether the text fails')
    compare(h, [g for g in got if g[0] != 'nothing'], [g for g in want if g[0] != 'nothing'], 'the results')
    samevars(h, after, snap(h, c), 'the variables')
    h.cover('error' if bad else 'value')


HARNESSES = [
    dict(name='statements', fn=h_statements, quick={'n': 3, 'm': 1, 'pools': ['full', 'some', 'last'], 'seps': ['\n']}, thorough={'n': 3, 'm': 2, 'pools': ['full', 'full', 'some'], 'seps': ['\n', ' \n \n', ' # c\n']}, bounds='sequences of n listed statements on numbers -1..m, a string of one character and a list', covers=['value', 'error']),
    dict(name='state', fn=h_state, quick={'m': 1}, thorough={'m': 3}, bounds='three listed statements', covers=['value']),
    dict(name='continued', fn=h_continued, quick={'m': 1, 'second': ['x = 5', '1 / 0']}, thorough={'m': 2, 'second': ['va', 'x = 5', '1 / 0', '']}, bounds='listed texts with numbers -1..m and line breaks', covers=['value', 'error']),
]
