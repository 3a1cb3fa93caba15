"""S01: assignments store exactly the value computed."""
from common import tryev, tryevu, failed, run, val, equal, snap, samevars
LIBS = ['objects.number', 'objects.items', 'objects.exceptions']
CALCS = ['Computing']


def prepare(h, c, m=5):
    """Some variables of different kinds with symbolic contents."""
    N = h.lib('objects.number')
    c.vars['va'] = (N.Number(h.int('a', -m, m)), None)
    c.vars['vd'] = (N.Number(h.int('d', -1, 1)), None)
    c.vars['vs'] = (h.str('s', (0, 1), "a'5"), None)
    c.vars['vt'] = (h.bool('t'), None)
    for i, name in enumerate(['VA', 'vA', 'va_', 'vaa', 'v', 'a', 'va1', 'vu2', 'VL', '_va', 'PARAM2']):
        c.vars[name] = (N.Number(11 + i), None)
    tryev(h, c, 'vl = [va, 2 days]')
    tryev(h, c, 'vu = va days')


EXPRS = ['va', 'va + 1', '1 / vd', 'vs', 'vt', 'vl', 'vl + 1', '[va / vd, va]', '[va .. va + 1]', '(va) meters', 'vu * 2', 'vu to weeks', 'va > 0', 'not vt', "vs +$ 'x'", '0x1F', 'va as percentage', 'vundef', 'vt then va else vl',
         'abs(va)', 'sort([va, 1])', '{PARAM1 + 1}', '5 meters / 2 seconds', "'a' ~= 'A'", 'va + vl', '2 ^ va', 'v_x9', '-7', '1e2']


def h_assign(h):
    c = h.calc('Computing')
    prepare(h, c)
    e = h.choose('e', EXPRS)
    target, eq = h.choose('target', [('vnew', ' = '), ('va', '='), ('vl', ' ='), ('V_9', '= '), ('VA', ' = ')])
    bracket = h.choose('bracket', ['', '()'])
    want = run(h, c, e)
    before = snap(h, c)
    got = run(h, c, target + eq + ('(' + e + ')' if bracket else e))
    after = snap(h, c)
    samevars(h, before, after, 'no other variable changes', [target])
    if want[0] == 'error':
        h.check(got[0] == 'error', 'an error is reported')
        h.check((target in before) == (target in after), 'a failing assignment creates nothing')
        if target in before:
            equal(h, after[target], before[target], 'a failing assignment changes nothing')
        h.cover('error')
        return
    equal(h, got, want, 'the result of the assignment')
    equal(h, after[target], want, 'the value stored')
    equal(h, run(h, c, target), want, 'the value read')
    samevars(h, after, snap(h, c), 'reading changes nothing')
    h.cover(want[0])


COMP = ['+', '-', '*', '/', '^', '%', '\\']


def operand(h, c, name, kinds, m):
    """An operand in a variable, of a chosen kind."""
    N = h.lib('objects.number')
    k = h.choose('kind_' + name, kinds)
    if k == 'undefined':
        return k
    if k == 'string':
        c.vars[name] = (h.str(name, 1, 'a5'), None)
        return k
    if k == 'bool':
        c.vars[name] = (h.bool(name), None)
        return k
    c.vars[name] = (N.Number(h.int(name, -m, m)), None)
    if k in ('days', 'weeks', 'meters', 'percentage'):
        tryev(h, c, '%s = %s %s' % (name, name, 'as percentage' if k == 'percentage' else k))
    if k == 'array':
        c.vars['tmp'] = (N.Number(h.int(name + '_2', -1, 1)), None)
        tryev(h, c, '%s = [%s, tmp]' % (name, name))
    return k


def same_outcome(h, c, name, op_text, expr_text, vs_names):
    """Running op_text must do what name = expr_text does."""
    before = snap(h, c)
    state = dict(c.vars)
    want = run(h, c, name + ' = ' + expr_text)
    wafter = snap(h, c)
    c.vars.clear()
    c.vars.update(state)
    got = run(h, c, op_text)
    after = snap(h, c)
    if got[0] == 'error' and want[0] == 'array' and all(e[0] == 'error' for e in want[1]):
        # an operand of the wrong type altogether: an error either way
        samevars(h, before, after, op_text + ' fails and changes nothing')
        h.cover('error')
        return want
    equal(h, got, want, op_text + ' gives what ' + name + ' = ' + expr_text + ' gives')
    samevars(h, wafter, after, op_text + ' stores what ' + name + ' = ' + expr_text + ' stores')
    samevars(h, before, after, op_text + ' changes no other variable', [name])
    h.cover('error' if want[0] == 'error' else 'value')
    return want


def h_compound(h):
    c = h.calc('Computing')
    op = h.choose('op', h.p('ops'))
    kv = operand(h, c, 'vv', h.p('kinds'), h.p('m'))
    kw = operand(h, c, 'vw', h.p('rkinds'), 2 if op == '^' else h.p('m'))
    same_outcome(h, c, 'vv', 'vv %s= vw' % op, 'vv %s vw' % op, None)


def h_compound_expr(h):
    """The right-hand side is the whole expression after the operator."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    op = h.choose('op', COMP)
    r = h.choose('r', ['vw + 1', 'vw * 2', '(vw - 1) * vv', '1 / vw', 'vv', "'3'", 'vw > 1', 'abs(vw)', 'vw % 2', 'vw (2)', '2 days', '50%', '(vw) weeks', 'vw & 3'])
    if op == '^' and r in ('1 / vw', '50%', '(vw) weeks'):
        return  # fractional powers are X01's
    for n in ('vv', 'vw'):
        c.vars[n] = (N.Number(h.int(n, -2, 2)), None)
    if h.choose('unit', [False, True]):
        tryev(h, c, 'vv = vv days')
    same_outcome(h, c, 'vv', 'vv %s= %s' % (op, r), 'vv %s (%s)' % (op, r), None)


def h_increment(h):
    c = h.calc('Computing')
    op = h.choose('op', ['+', '-'])
    operand(h, c, 'vv', ['number', 'days', 'percentage', 'string', 'bool', 'array', 'undefined'], 5)
    c.vars['vo'] = (h.lib('objects.number').Number(h.int('o', -5, 5)), None)
    same_outcome(h, c, 'vv', 'vv' + op * 2, 'vv %s 1' % op, None)


def h_ifempty(h):
    """v ||= e assigns only if v does not exist."""
    c = h.calc('Computing')
    prepare(h, c)
    e = h.choose('e', ['va + 1', '1 / vd', 'vs', 'vl', 'vu', '[va / vd, 1]'])
    target = h.choose('target', ['vnew', 'va', 'vs', 'vl', 'vt'])
    want = run(h, c, e)
    before = snap(h, c)
    got = run(h, c, target + ' ||= ' + e)
    after = snap(h, c)
    samevars(h, before, after, 'no other variable changes', [target])
    if target in before:
        equal(h, after[target], before[target], 'an existing variable is kept')
        h.cover('kept')
    elif want[0] == 'error':
        h.check(got[0] == 'error' and target not in after, 'an error stores nothing')
        h.cover('error')
    else:
        equal(h, after[target], want, 'the value is stored')
        equal(h, got, want, 'the result')
        h.cover('stored')


def h_delete(h):
    c = h.calc('Computing')
    prepare(h, c)
    name = h.choose('name', ['va', 'vl', 'vu', 'vs', 'vnew', 'PARAM1', 'VA', 'v', 'PARAM2', 'va_'])
    if h.choose('how', ['delete', 'reset']) == 'reset':
        got = run(h, c, 'reset()')
        h.check(got[0] != 'error' and len(c.vars) == 0, 'reset removes all variables')
        h.cover('reset')
        return
    before = snap(h, c)
    got = run(h, c, 'delete(' + name + ')')
    after = snap(h, c)
    samevars(h, before, after, 'no other variable changes', [name])
    h.check(name not in after, 'the variable is gone')
    if name in before:
        h.check(got[0] != 'error', 'an existing variable can be deleted')
        got = run(h, c, name + ' ||= 7')
        equal(h, snap(h, c)[name], ('number', h.q(7), None), 'it can be assigned again')
        h.cover('deleted')
    else:
        h.check(got[0] == 'error', 'deleting an unknown variable is an error')
        h.cover('unknown')


def h_sequence(h):
    """A history of assignments: each variable holds what the last assignment to it computed."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    a, b = h.int('a', -9, 9), h.int('b', -9, 9)
    vals = {'va': h.q(a), 'vb': h.q(b)}
    c.vars['va'], c.vars['vb'] = (N.Number(a), None), (N.Number(b), None)
    OPS = [('va = vb', lambda v: v.update(va=v['vb'])), ('vb = va + 1', lambda v: v.update(vb=v['va'] + 1)), ('va += vb', lambda v: v.update(va=v['va'] + v['vb'])), ('vb++', lambda v: v.update(vb=v['vb'] + 1)),
           ('va--', lambda v: v.update(va=v['va'] - 1)), ('va ||= 5', lambda v: v.setdefault('va', h.q(5))), ('delete(vb)', lambda v: v.pop('vb')), ('vc = va * 2', lambda v: v.update(vc=v['va'] * 2)), ('va *= va', lambda v: v.update(va=v['va'] * v['va'])),
           ('vb = vb - va', lambda v: v.update(vb=v['vb'] - v['va'])), ('va', lambda v: None), ('reset()', lambda v: v.clear())]
    for i in range(h.p('steps')):
        text, f = h.choose('step%d' % i, OPS)
        try:
            f(vals)
            ok = True
        except KeyError:
            ok = False
        got = run(h, c, text)
        if not ok:
            h.check(got[0] == 'error' or text in ('va', 'va = vb'), 'an undefined variable is an error')
            if text == 'va = vb':
                # an undefined value is assigned as such
                c.vars.pop('va', None)
                vals.pop('va', None)
        h.check(set(c.vars) == set(vals), 'which variables exist')
        for k in vals:
            equal(h, val(h, *c.vars[k]), ('number', vals[k], None), k)
    h.cover('done')


HARNESSES = [
    dict(name='assign', fn=h_assign, quick={}, thorough={}, bounds='listed expressions over variables with symbolic contents: whole numbers up to 5, strings of up to one character, booleans, arrays, quantities',
         covers=['error', 'number', 'string', 'bool', 'array', 'none', 'function']),
    dict(name='compound', fn=h_compound, quick={'ops': COMP, 'm': 3, 'kinds': ['number', 'days', 'array', 'bool', 'undefined', 'string'], 'rkinds': ['number', 'weeks', 'array', 'string']},
         thorough={'ops': COMP, 'm': 5, 'kinds': ['number', 'days', 'meters', 'percentage', 'array', 'bool', 'undefined', 'string'], 'rkinds': ['number', 'weeks', 'percentage', 'array', 'string', 'bool', 'undefined']},
         bounds='operands up to m', covers=['error', 'value']),
    dict(name='compound_expr', fn=h_compound_expr, quick={}, thorough={}, bounds='operands up to 2', covers=['error', 'value']),
    dict(name='increment', fn=h_increment, quick={}, thorough={}, bounds='operands up to 5', covers=['error', 'value']),
    dict(name='ifempty', fn=h_ifempty, quick={}, thorough={}, bounds='listed expressions', covers=['kept', 'error', 'stored']),
    dict(name='delete', fn=h_delete, quick={}, thorough={}, bounds='listed variables', covers=['deleted', 'unknown', 'reset']),
    dict(name='sequence', fn=h_sequence, quick={'steps': 3}, thorough={'steps': 4}, bounds='all histories of 3 (4) of 12 statements, initial numbers up to 9', covers=['done']),
]
