"""E04: spaces and comments never change a result."""
from common import tryev, tryevu, failed, run, val, equal, snap, samevars
LIBS = ['objects.number', 'objects.items', 'objects.exceptions']
CALCS = ['Computing']

# expressions as their tokens; a token ending in ( opens a function call or is a bracket
TEXTS = [
    'va + vb * vc', 'va - ( vb - vc )', '( va )', '( va ) ( vb )', 'abs( va - vb )', 'max( va , vb , vc )', '[ va , vb ]', '[ va .. vb ]', '[ va .. 9 step 2 ]', '[ [ va ] , [ ] ]', 'element( [ va , vb ] , 2 )',
    'va < vb then va else vb', 'not va == vb and va <= vc', 'x = va + 1', 'va += vb', 'va ++', 'x ||= va', 'va days', 'va days + 2 weeks', 'va days to weeks', 'va meters / second', 'va meters ^ 2', "'a b' +$ 'c#d'", "length( 'a  b' )",
    "vs ==$ 'a' or vs =~ 'b'", 'va as percentage', '50% * va', '1e2 + va', '-2 * va', 'va - -2', '0b101 & va', '0xff | va', '~ 0b101', '@ff( va , vb )', 'ff = { PARAM1 + 1 }', 'round( va / 7 , 2 )', 'true', 'va ^^ vb << 1', 'vl * 2', 'sum( vl )', 'delete( va )', 'va / 0', 'join( [ vs , vs ] , \'-\' )',
    'va \\ vb % vc', "vs *$ 2", 'va >> 1', 'filter( vl , [ true , false ] )', 'va == vb xor va != vc', 'x = va \n x * 2', 'va += 1 \n va -= 2 \n [ va ]', 'x = ( va ) \n ( x )', 'dec( 0b11 )', 'va to',
]


def setup(h, c):
    N = h.lib('objects.number')
    for n in ('va', 'vb', 'vc'):
        c.vars[n] = (N.Number(h.int(n, -2, h.p('m'))), None)
    c.vars['vs'] = (h.str('vs', 1, "a#' "), None)
    tryev(h, c, 'vl = [va, 3]')
    tryev(h, c, 'ff = {PARAM1 * 2 - PARAM2}')


def tokens(text):
    """The tokens and for every gap (before each token and at the end) how deep in brackets it lies, and what it ends."""
    out, cur, quote = [], '', False
    for ch in text + ' ':
        if ch == "'":
            quote = not quote
        if ch == ' ' and not quote:
            if cur:
                out.append(cur)
            cur = ''
        else:
            cur += ch
    depth, gaps, deep = 0, [], []
    for t in out:
        gaps.append(depth)
        if t[-1] in '([{':
            depth += 1
            deep.append(t[-1])
        if t in (')', ']', '}'):
            depth -= 1
            gaps[-1] = depth + 1
    gaps.append(depth)
    return out, gaps


def joins(a, b):
    """Whether the tokens still separate without a space."""
    if a in ('(', '[', ',', ')', ']') or b in ('(', '[', ',', ')', ']') or a[-1] == '(':
        return not (b == '(' and (a[-1].isalnum() or a[-1] == '_'))
    wa, wb = a[-1].isalnum() or a[-1] in "_'.", b[0].isalnum() or b[0] in "_'."
    if a.isdigit() and b[0] in 'dw':
        return True
    return wa != wb and not (not wa and b[0] == '-') and '..' not in (a, b) and '-' not in (a[0], b[0])


def compare(h, c, text, variant):
    before = dict(c.vars)
    want = run(h, c, text)
    after = snap(h, c)
    c.vars.clear()
    c.vars.update(before)
    got = run(h, c, variant)
    if want[0] == 'function':
        # the text of a function is part of it
        h.check(got[0] == 'function', 'the result')
        for k in after:
            if k != 'ff':
                equal(h, after[k], snap(h, c)[k], 'a variable')
        want2 = run(h, c, '@ff(va)')
        equal(h, want2, run(h, c, 'va + 1'), 'the function')
        h.cover('function')
        return
    equal(h, got, want, 'the result')
    samevars(h, after, snap(h, c), 'the variables')
    h.cover('error' if want[0] == 'error' else 'value')


def h_gap(h):
    """One or two gaps hold any white space or a comment."""
    c = h.calc('Computing')
    setup(h, c)
    toks, gaps = tokens(h.choose('text', TEXTS))
    base = ' '.join(toks)
    where = [h.choose('gap%d' % i, list(range(len(gaps)))) for i in range(h.p('gaps'))]
    if sorted(where) != where or len(set(where)) < len(where):
        return
    fill = {}
    for i, g in enumerate(where):
        last = g == len(toks) or toks[g] == '\n'
        kinds = ['space'] + (['comment'] if last and gaps[g] == 0 else ['comment-line'] if gaps[g] > 0 and '{' not in toks[:g] else [])
        kind = h.choose('kind%d' % i, kinds)
        s = h.str('ws%d' % i, (1, h.p('ws')) if kind == 'space' else (0, 1), ' \t')
        if kind == 'space':
            fill[g] = s
        else:
            body = h.str('body%d' % i, (0, h.p('body')), "a1#'()+=[]},\" ")
            fill[g] = s + '#' + body + ('\n' if kind == 'comment-line' else '')
    variant = ''
    for g in range(len(gaps)):
        if g in fill:
            variant = variant + fill[g]
        elif 0 < g < len(toks):
            variant = variant + ' '
        if g < len(toks):
            variant = variant + toks[g]
    compare(h, c, base, variant)


def h_all(h):
    """All gaps at once are wider, narrower or hold comments."""
    c = h.calc('Computing')
    setup(h, c)
    toks, gaps = tokens(h.choose('text', TEXTS))
    base = ' '.join(toks)
    how = h.choose('how', ['wide', 'tab', 'none', 'comments', 'newline', 'brackets newline'])
    end = h.choose('end', ['', '\n', ' \n', '#x\n', '\n\n', '\n  # x'])
    variant = '' if how in ('none', 'newline') else {'wide': '   ', 'tab': '\t'}.get(how, ' ')
    for i, t in enumerate(toks):
        variant = variant + t
        if i + 1 == len(toks):
            break
        n = toks[i + 1]
        inside = gaps[i + 1] > 0 and '{' not in toks[:i + 1]
        if how == 'none' and joins(t, n):
            sep = ''
        elif how == 'comments' and inside:
            sep = " # it's a (comment\n"
        elif how == 'comments' and n == '\n':
            sep = " # it's a (comment"
        elif how == 'brackets newline' and inside:
            sep = ' \n '
        else:
            sep = {'wide': '  ', 'tab': '\t\t'}.get(how, ' ')
        variant = variant + sep
    compare(h, c, base, variant + end)


HARNESSES = [
    dict(name='gap', fn=h_gap, quick={'m': 3, 'gaps': 1, 'ws': 2, 'body': 2}, thorough={'m': 3, 'gaps': 2, 'ws': 2, 'body': 2}, bounds='listed expressions with numbers -2..m; white space up to ws characters, comments up to body characters, in any one (thorough: two) gaps', covers=['value', 'error', 'function']),
    dict(name='all', fn=h_all, quick={'m': 3}, thorough={'m': 5}, bounds='listed expressions with numbers -2..m', covers=['value', 'error', 'function']),
]
