"""F01: functions defined by the user evaluate in their own scope."""
import os
import shutil
import tempfile
from common import tryev, tryevu, failed, run, val, equal, snap, samevars
LIBS = ['objects.number', 'objects.items', 'objects.exceptions']
CALCS = ['Computing']


def caller(h, c, m=4):
    """Variables of the caller, including PARAM variables."""
    N = h.lib('objects.number')
    for n in ('va', 'vb'):
        c.vars[n] = (N.Number(h.int(n, -m, m)), None)
    c.vars['vs'] = (h.str('vs', (0, 1), "a5"), None)
    c.vars['PARAM1'] = (N.Number(h.int('p1', -m, m)), None)
    c.vars['PARAM3'] = (h.str('p3', 1, "xy"), None)
    tryev(h, c, 'vl = [va, 2 days]')


# a body as its statements, and the expression its value must equal in the caller's scope with A and B for the parameters
BODIES = [
    (['PARAM1 + PARAM2'], '(A) + (B)'),
    (['PARAM1 / PARAM2'], '(A) / (B)'),
    (['x = PARAM1', 'x = x * 2', 'x - PARAM2'], '(A) * 2 - (B)'),
    (['va = PARAM2', 'vb = 7', 'va + vb + PARAM1'], '(B) + 7 + (A)'),
    (['1 / PARAM1', 'PARAM2'], '1 / (A) ; (B)'),
    (['va = 1', '1 / PARAM2', 'vb = 2', '5'], '1 / (B) ; 5'),
    (['PARAM1 = PARAM1 + 1', 'PARAM1'], '(A) + 1'),
    (['PARAM2 = 9', 'delete(va)', 'PARAM1'], '(A)'),
    (['PARAM1 > PARAM2 then PARAM1 else PARAM2'], '((A) > (B)) then (A) else (B)'),
    (['[PARAM1, PARAM2]'], '[A, B]'),
    (['sum([PARAM1, PARAM2])'], 'sum([A, B])'),
    (['new1 = PARAM1', 'new2 = new1', 'new2'], '(A)'),
    (["vs = 'other'", 'PARAM1 to days'], '(A) to days'),
    (['PARAM1 += 1', 'PARAM1 *= PARAM2', 'PARAM1'], '((A) + 1) * (B)'),
    (['reset()', '3'], '3'),
    (['PARAM2', ''], '(B)'),
    (['vl = 1', 'PARAM1 ^ 2'], '(A) ^ 2'),
    (['PARAM1 + missing'], '(A) + missing'),
]


def arguments(h, c, kinds):
    """Texts for two arguments."""
    N = h.lib('objects.number')
    out = []
    for n in ('x', 'y'):
        k = h.choose('kind_' + n, kinds)
        c.vars['arg' + n] = (N.Number(h.choose('arg' + n, [-2, 0, 3]) if k == 'failing' else h.int('arg' + n, -3, 3)), None)
        out.append({'number': 'arg' + n, 'expr': 'arg%s * 2 + 1' % n, 'days': '(arg%s) days' % n, 'weeks': '(arg%s) weeks' % n, 'string': "'5'", 'array': '[arg%s, 1]' % n, 'param': 'PARAM1', 'failing': '1 / arg%s' % n, 'percent': 'arg%s as percentage' % n}[k])
    return out


def value(h, c, meaning, A, B):
    """What the body must give: the last expression, unless one before it fails."""
    for e in (A, B):
        got = run(h, c, e)
        if got[0] == 'error':
            return got
    for e in meaning.split(' ; '):
        got = run(h, c, e.replace('A', '\1').replace('B', B).replace('\1', A))
        if got[0] == 'error':
            return got
    return got


def compare(h, c, call, want, before, body):
    got = run(h, c, call)
    samevars(h, before, snap(h, c), 'the variables of the caller after ' + ('an error' if got[0] == 'error' else 'a result'))
    if want[0] == 'error' and got[0] == 'array':
        h.fail('an error in the body')
    equal(h, got, want, 'the value of the call')
    h.cover('error' if got[0] == 'error' else 'value')
    return got


def h_inline(h):
    c = h.calc('Computing')
    caller(h, c)
    stmts, meaning = h.choose('body', BODIES)
    A, B = arguments(h, c, h.p('kinds'))
    sep = h.choose('sep', ['\n', ' \n\n '])
    f = '{' + sep.join(stmts) + '}'
    tryev(h, c, 'ff = ' + f)
    want = value(h, c, meaning, A, B)
    before = snap(h, c)
    compare(h, c, '@ff(%s, %s)' % (A, B), want, before, stmts)
    if h.p('twice'):
        # a second call is not disturbed by the first one
        compare(h, c, '@ff(%s, %s)' % (A, B), want, before, stmts)


def h_stateless(h):
    """A call gives the same value when variables may not be changed."""
    c = h.calc('Computing')
    caller(h, c, 3)
    stmts, meaning = h.choose('body', BODIES)
    A, B = arguments(h, c, ['number', 'days'])
    h.check(not failed(tryev(h, c, 'ff = {' + '\n'.join(stmts) + '}')), 'defining a function')
    call = '@ff(%s, %s)' % (A, B)
    want = run(h, c, call)
    before = snap(h, c)
    E = h.lib('objects.exceptions')
    try:
        r = [x for x in c.calculate(call, {'stateless': True}).results if x.has_result()][-1]
        got = val(h, r.value, r.unit)
    except E.CalculatingException:
        got = ('error',)
    samevars(h, before, snap(h, c), 'the variables of the caller')
    equal(h, got, want, 'the value of the call')
    h.cover('error' if got[0] == 'error' else 'value')


def h_external(h):
    c = h.calc('Computing')
    caller(h, c)
    stmts, meaning = h.choose('body', [b for b in BODIES if 'missing' not in b[1] and 'delete' not in b[0][1 if len(b[0]) > 1 else 0]])
    A, B = arguments(h, c, h.p('kinds'))
    want = value(h, c, meaning, A, B)
    sep = h.choose('sep', ['\n', ' # comment\n'])
    d = tempfile.mkdtemp(prefix='vf01-')
    try:
        path = os.path.join(d, 'f')
        with open(path, 'w') as fh:
            fh.write(sep.join(stmts) + '\n')
        c.vars['ff'] = (path, None)
        before = snap(h, c)
        compare(h, c, '@ff(%s, %s)' % (A, B), want, before, stmts)
        # the caller's variables are not visible
        with open(path, 'w') as fh:
            fh.write('va + PARAM1')
        got = run(h, c, '@ff(%s)' % A)
        h.check(got[0] == 'error' or (got[0] == 'array' and all(e[0] == 'error' for e in got[1])), 'the caller\'s variables are not in the scope of an external function')
        samevars(h, before, snap(h, c), 'the variables of the caller')
    finally:
        shutil.rmtree(d)


def h_typed(h):
    """External functions declaring their inputs accept exactly those."""
    c = h.calc('Computing')
    N = h.lib('objects.number')
    c.vars['va'] = (N.Number(h.int('va', -3, 3)), None)
    c.vars['vs'] = (h.str('vs', (1, 2), 'a5'), None)
    decl, ok = h.choose('decl', [('#INPUT number', {'va', 'va days', 'va weeks', "'5'"}), ('#INPUT number:time', {'va days', 'va weeks'}), ('#INPUT string', {'vs', "'5'", 'va', 'va days'}), ('#INPUT number:distance,time^-1', {'(va meters) / (1 seconds)'}),
                                 ('#INPUT array', {'[va]'}), ('#INPUT boolean', {'va > 0'}), ('#INPUT number:time^-1,distance', {'(va meters) / (1 seconds)'}), ('#INPUT number:velocity', {'(va meters) / (1 seconds)'}), ('# a comment', None)])
    arg = h.choose('arg', ['va', 'va days', 'va weeks', "'5'", "'a b'", '[va]', 'va > 0', '(va meters) / (1 seconds)', 'va meters'])
    d = tempfile.mkdtemp(prefix='vf01-')
    try:
        path = os.path.join(d, 'f')
        with open(path, 'w') as fh:
            fh.write(decl + '\nPARAM1')
        c.vars['ff'] = (path, None)
        before = snap(h, c)
        want = run(h, c, arg)
        got = run(h, c, '@ff(%s)' % arg)
        samevars(h, before, snap(h, c), 'the variables of the caller')
        if decl.startswith('# ') or arg in ok:
            equal(h, got, want, 'an accepted argument')
            h.cover('accepted')
        elif decl == '#INPUT string' or (decl == '#INPUT number' and arg in ('va > 0', '(va meters) / (1 seconds)', 'va meters')) or (decl != '#INPUT array' and arg == '[va]'):
            pass  # numbers and booleans have a text; arrays are processed element by element
        else:
            h.check(got[0] == 'error', 'an argument of another type or unit is rejected')
            h.cover('rejected')
    finally:
        shutil.rmtree(d)


# files that do not parse, fail, or have no result
BAD = [('x = 2\ny = )', True), ("va = 3\n'abc", True), ('va = 3\n1 +', True), ('va = 3\n}', True), ('PARAM1 = 4\n[1, 2', True), ('va = 3\n(1', True), ('va = 3\nva = 1 / 0\n5', True), ('va = 3\n1 / 0', True), ('vb = 3\nlength(1, 2)', True),
       ('va = 3\nelement([1], 2)', True), ('va = 3\n"', True), ('va = 3\n@missing(1)', True), ('reset()\n1 / 0', True), ('', None), ('# nothing', None), ('va = 3\nreset()', None), ('va = 3\ndelete(PARAM1)', None), (None, True), ('va = 3\ndelete(missing)', True)]


def h_bad(h):
    """Whatever a function's text is, the caller's variables survive the call."""
    c = h.calc('Computing')
    caller(h, c, 3)
    body, fails = h.choose('body', BAD)
    inline = h.choose('inline', [False, True])
    call = h.choose('call', ['@ff(va)', '1 + @ff(vb)', '@ff(vs, va)', 'va = @ff(va)', '[@ff(va), @ff(vb)]'])
    d = tempfile.mkdtemp(prefix='vf01-')
    try:
        if inline:
            if body is None or failed(tryev(h, c, 'ff = {%s}' % body)):
                return
        else:
            path = os.path.join(d, 'f')
            if body is not None:
                with open(path, 'w') as fh:
                    fh.write(body)
            c.vars['ff'] = (path, None)
        before = snap(h, c)
        got = run(h, c, call)
        samevars(h, before, snap(h, c), 'the variables of the caller', [] if got[0] == 'error' else ['va'] if call.startswith('va =') else [])
        if fails:
            h.check(got[0] == 'error' or (got[0] == 'array' and any(e[0] == 'error' for e in got[1])), 'a function that fails is an error')
            h.cover('error')
        # and it can be called again
        c.vars['ff'] = c.vars['ff'] if inline else (path, None)
        got2 = run(h, c, call)
        if not call.startswith('va ='):
            equal(h, got2, got, 'a second call')
    finally:
        shutil.rmtree(d)


def h_nested(h):
    """Calls inside calls, recursion through variables and arrays of functions."""
    c = h.calc('Computing')
    caller(h, c, 3)
    N = h.lib('objects.number')
    c.vars['x'] = (N.Number(h.int('x', -3, 3)), None)
    setup, call, meaning = h.choose('case', [
        ('ff = {PARAM1 + 1}; gg = {@ff(PARAM1 * 2) + PARAM1}', '@gg(x)', 'x * 2 + 1 + x'),
        ('ff = {1 / PARAM1}; gg = {@ff(PARAM2) + PARAM1}', '@gg(x, va)', '1 / va + x'),
        ('ff = {PARAM1 = 5; va = PARAM1; 1}; gg = {@ff(PARAM1) + PARAM1 + va}', '@gg(x)', '1 + x + va'),
        ('ff = {PARAM1 + va}', '@ff(@ff(x))', 'x + va + va'),
        ('ff = {PARAM1 + PARAM2}', '@ff(@ff(x, 1), @ff(va, 2))', 'x + 1 + va + 2'),
        ('ff = {gg = {PARAM1 * 3}; @gg(PARAM1 + 1)}', '@ff(x)', '(x + 1) * 3'),
        ('ff = {gg = {1 / PARAM1}; vb = 3; @gg(PARAM1)}', '@ff(x)', '1 / x'),
        ('ff = [{PARAM1 + 1}, {PARAM1 * 2}]', '@ff(x)', '[x + 1, x * 2]'),
        ('ff = {PARAM1 + va}', '@ff(PARAM1)', 'PARAM1 + va'),
        ('ff = {PARAM1 + 1}', '@ff(x) + @ff(va) + PARAM1', 'x + 1 + va + 1 + PARAM1'),
        ('ff = {PARAM1 / PARAM2}', 'true then 1 else @ff(x, 0)', '1'),
        ('ff = {PARAM1 + 1}; gg = {PARAM1 = @ff(PARAM1); PARAM1 = @ff(PARAM1); PARAM1}', '@gg(x)', 'x + 2'),
        ('ff = {va = 1; [PARAM1, 2] / [1, 0]}', '@ff(x)', '[x, 2] / [1, 0]'),
        ('ff = {PARAM1 to weeks}', '@ff(x days)', '(x days) to weeks'),
        ('ff = {PARAM1; PARAM2}', '@ff(x)', '1/0'),
        ('ff = {va}', '@ff()', 'va'),
        ('ff = {va + 1}', '@ff(x) + va', 'va + 1 + va'),
    ])
    for s in split(setup):
        h.check(not failed(tryev(h, c, s.replace('; ', '\n'))), 'defining a function')
    want = run(h, c, meaning) if call != '@ff(x)' or setup != 'ff = {PARAM1; PARAM2}' else None
    before = snap(h, c)
    got = run(h, c, call)
    samevars(h, before, snap(h, c), 'the variables of the caller')
    if want is None:
        # a parameter that was not given is not the caller's
        h.cover('value')
        return
    equal(h, got, want, 'the value of the call')
    h.cover('error' if got[0] == 'error' else 'value')


def split(text):
    """The statements of a setup text (separators inside braces belong to the function)."""
    out, depth, cur = [], 0, ''
    for ch in text:
        depth += (ch == '{') - (ch == '}')
        if ch == ';' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return [s.strip() for s in out + [cur]]


def h_assigned(h):
    """The result of a call can be assigned; only the target changes."""
    c = h.calc('Computing')
    caller(h, c)
    stmts, meaning = h.choose('body', BODIES[:8])
    A, B = arguments(h, c, ['number'])
    tryev(h, c, 'ff = {' + '\n'.join(stmts) + '}')
    want = value(h, c, meaning, A, B)
    target = h.choose('target', ['va', 'r', 'PARAM1', 'ff'])
    before = snap(h, c)
    got = run(h, c, '%s = @ff(%s, %s)' % (target, A, B))
    after = snap(h, c)
    equal(h, got, want, 'the result')
    if want[0] == 'error':
        samevars(h, before, after, 'a failing call assigns nothing')
        h.cover('error')
    else:
        samevars(h, before, after, 'only the target changes', [target])
        equal(h, after[target], want, 'the target')
        h.cover('value')


HARNESSES = [
    dict(name='inline', fn=h_inline, quick={'kinds': ['number', 'days', 'failing', 'param'], 'twice': 0}, thorough={'kinds': ['number', 'expr', 'days', 'weeks', 'string', 'param', 'failing', 'percent'], 'twice': 1},
         bounds='listed bodies; arguments and variables up to 4', covers=['error', 'value']),
    dict(name='stateless', fn=h_stateless, quick={}, thorough={}, bounds='listed bodies; arguments and variables up to 3', covers=['error', 'value']),
    dict(name='external', fn=h_external, quick={'kinds': ['number', 'days', 'failing']}, thorough={'kinds': ['number', 'expr', 'days', 'weeks', 'string', 'param', 'failing']}, bounds='listed bodies; arguments and variables up to 4', covers=['error', 'value']),
    dict(name='typed', fn=h_typed, quick={}, thorough={}, bounds='listed declarations and arguments', covers=['accepted', 'rejected']),
    dict(name='bad', fn=h_bad, quick={}, thorough={}, bounds='listed function texts and calls; variables up to 3', covers=['error']),
    dict(name='nested', fn=h_nested, quick={}, thorough={}, bounds='listed functions; arguments and variables up to 3', covers=['error', 'value']),
    dict(name='assigned', fn=h_assigned, quick={}, thorough={}, bounds='listed bodies; arguments up to 3', covers=['error', 'value']),
]
