"""T01: string literals denote exactly the characters written."""
from common import tryev, tryevu, failed, run, val, equal
LIBS = ['objects.number', 'objects.items', 'objects.exceptions']
CALCS = ['Computing']
AL = "a'\\ #b1\n\"]"


def reference(h, body):
    """(what the literal body denotes, whether a quote ends it early, whether an escape character is left open)."""
    out, esc = '', False
    for ch in body:
        if esc:
            out = out + ch
            esc = False
        elif h.is_true(ch == '\\'):
            esc = True
        elif h.is_true(ch == "'"):
            return out, True, False
        else:
            out = out + ch
    return out, False, esc


def h_read(h):
    """'body' for every body."""
    c = h.calc('Computing')
    body = h.str('body', (0, h.p('n')), AL[:h.p('al')])
    want, early, esc = reference(h, body)
    if early:
        return  # the literal ends before: the shorter body covers it
    text = "'" + body + "'"
    got, u = tryevu(h, c, text)
    if esc:
        h.check(failed(got), 'an escaped quote does not end the literal')
        h.cover('unterminated')
    else:
        h.check(not failed(got) and u is None, 'a literal')
        h.check(type(got).__name__ != 'Number' and len(got) == len(want), 'exactly the characters written')
        h.check(got == want, 'exactly the characters written')
        h.cover('literal')


def h_open(h):
    """A literal that is not closed is an error."""
    c = h.calc('Computing')
    body = h.str('body', (0, h.p('n')), AL[:h.p('al')])
    want, early, esc = reference(h, body)
    if early:
        return
    pre = h.choose('pre', ['', '1 + ', 'x = ', '[', 'length(', "'a' +$ "])
    got = tryev(h, c, pre + "'" + body)
    h.check(failed(got), 'an unterminated literal is an error')
    h.cover('done')


def escape(h, s):
    out = ''
    for ch in s:
        if h.is_true(ch == "'") or h.is_true(ch == '\\'):
            out = out + '\\'
        out = out + ch
    return out


def h_roundtrip(h):
    """Writing any string with its quotes and escapes escaped, in any place an expression can have it."""
    c = h.calc('Computing')
    s = h.str('s', (0, h.p('n')), AL)
    t = "'" + escape(h, s) + "'"
    form = h.choose('form', ['{}', '({})', '[{}]', 'x = {}\nx', '{} +$ {}', "lower({})", "element([1, {}, 2], 2)", "'' +$ {} # it's", '{} ==$ vs', "true then {} else 'x'", 'split({}, vsep)', '{{{}}}'])
    c.vars['vs'] = (s, None)
    c.vars['vsep'] = ('zz', None)
    got, u = tryevu(h, c, form.replace('{{', '\1').replace('}}', '\2').replace('{}', t).replace('\1', '{').replace('\2', '}') if form != '{{{}}}' else '({' + t + "}) +$ ''")
    h.check(not failed(got) and u is None, 'it can be written')
    if form == '[{}]' or form.startswith('split'):
        h.check(isinstance(got, list) and len(got) == 1, 'one element')
        got = got[0].value
    want = s
    if form == '{} +$ {}':
        want = s + s
    elif form.startswith('lower'):
        want = s.lower()
    elif form == '{} ==$ vs':
        h.check(h.is_true(got), 'it reads back as the same string')
        h.cover('done')
        return
    elif form == '{{{}}}':
        h.check(not failed(got) and got == '{' + t + '}', 'a function keeps its text')
        return
    h.check(type(got).__name__ != 'Number' and len(got) == len(want), 'it reads back as the same string')
    h.check(got == want, 'it reads back as the same string')
    h.cover('done')


def h_following(h):
    """The literal ends at its closing quote: what follows is read on its own."""
    c = h.calc('Computing')
    s = h.str('s', (0, 2), AL)
    t = h.str('t', (0, 1), AL)
    a, b = "'" + escape(h, s) + "'", "'" + escape(h, t) + "'"
    form = h.choose('form', ['array', 'args', 'lines', 'comment'])
    if form == 'array':
        got = tryev(h, c, '[' + a + ', ' + b + ',' + a + ']')
        want = [s, t, s]
        h.check(not failed(got) and len(got) == 3, 'three elements')
        got = [e.value for e in got]
    elif form == 'args':
        got = tryev(h, c, 'replace(' + a + ',' + b + ", 'Z')") if len(t) else s
        want = s.replace(t, 'Z') if len(t) else s
        h.check(not failed(got), 'arguments')
        got, want = [got], [want]
    elif form == 'lines':
        got = tryev(h, c, 'x = ' + a + '\n' + 'y = ' + b + '\nx +$ y')
        h.check(not failed(got), 'lines')
        got, want = [got], [s + t]
    else:
        got = tryev(h, c, a + ' # ' + "it's\n" + b + '#' + "'\n")
        h.check(not failed(got), 'comments')
        got, want = [got], [t]
    for g, w in zip(got, want):
        h.check(len(g) == len(w), form)
        h.check(g == w, form)
    h.cover(form)


HARNESSES = [
    dict(name='read', fn=h_read, quick={'n': 6, 'al': 10}, thorough={'n': 8, 'al': 10}, bounds='bodies of up to 6 (8) characters over 10 representative ones', covers=['literal', 'unterminated']),
    dict(name='open', fn=h_open, quick={'n': 4, 'al': 10}, thorough={'n': 4, 'al': 10}, bounds='bodies of up to 4 characters over 10 representative ones', covers=['done']),
    dict(name='roundtrip', fn=h_roundtrip, quick={'n': 4}, thorough={'n': 6}, bounds='strings of up to 4 (6) characters over 10 representative ones', covers=['done']),
    dict(name='following', fn=h_following, quick={}, thorough={}, bounds='strings of up to two and one characters', covers=['array', 'args', 'lines', 'comment']),
]
