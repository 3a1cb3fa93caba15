"""Calculators and helpers shared by the harnesses (runs both symbolically and concretely)."""


def build(key):
    import scipy.special
    if not hasattr(scipy.special, 'sph_harm'):
        scipy.special.sph_harm = None
    from modularcalculator.modularcalculator import ModularCalculator
    if key == '':
        return ModularCalculator()
    if '@' in key:                                                # the features of a preset, installed in another order
        preset, start, step = key.split('@')
        c = ModularCalculator()
        names = list(c.preset_list[preset])
        n = len(names)
        order, seen = [], set()
        i = int(start)
        while len(order) < n:
            while i % n in seen:
                i += 1
            order.append(names[i % n])
            seen.add(i % n)
            i += int(step)
        c.install_features(order)
        return c
    return ModularCalculator(key)


def setvars(c, vs):
    for k, v in vs.items():
        c.vars[k] = v if isinstance(v, tuple) else (v, None)


def ev(c, text, vs=None):
    """Value of the last statement of text, with variables given as Numbers or (value, unit) pairs."""
    if vs:
        setvars(c, vs)
    r = [x for x in c.calculate(text).results if x.has_result()][-1]
    return r.value


def evu(c, text, vs=None):
    if vs:
        setvars(c, vs)
    r = [x for x in c.calculate(text).results if x.has_result()][-1]
    return r.value, r.unit


class Failed:
    """Outcome of a calculation that ended in the calculator's own error."""
    def __init__(self, err):
        self.err = err


def tryev(h, c, text, vs=None):
    """Value of the last statement, or Failed. Exceptions that are not the calculator's own are left to propagate."""
    E = h.lib('objects.exceptions')
    try:
        return ev(c, text, vs)
    except E.CalculatingException as e:
        return Failed(e)


def tryevu(h, c, text, vs=None):
    E = h.lib('objects.exceptions')
    try:
        return evu(c, text, vs)
    except E.CalculatingException as e:
        return Failed(e), None


def failed(x):
    return isinstance(x, Failed)


def val(h, v, unit=None):
    """A value as (kind, content, unit): numbers by exact value, arrays element by element, errors all alike."""
    if v is None:
        return ('none', None, None)
    if failed(v) or isinstance(v, Exception):
        return ('error',)
    if isinstance(v, list):
        return ('array', [val(h, e.value, e.unit) for e in v])
    u = None if unit is None else str(unit)
    t = type(v).__name__
    if t == 'Number':
        return ('number', h.q(v), u)
    if t in ('bool', 'SymBool'):
        return ('bool', v, u)
    if isinstance(v, str) or t == 'SymStr':
        return ('string', v, u)
    if t == 'InlineFunctionItem':
        return ('function', v.text, u)
    return ('other', v, u)


def equal(h, a, b, label):
    """Asserts that two values (as given by val) are the same."""
    h.check(a[0] == b[0], label + ': kind (%s, %s)' % (a[0], b[0]))
    if a[0] == 'array':
        h.check(len(a[1]) == len(b[1]), label + ': length')
        for x, y in zip(a[1], b[1]):
            equal(h, x, y, label)
    elif a[0] != 'error':
        h.check(a[2] == b[2], label + ': unit')
        h.check(a[1] == b[1], label + ': value')


def run(h, c, text, vs=None):
    """The value (as given by val) of the last statement of text."""
    v, u = tryevu(h, c, text, vs)
    return val(h, v, u)


def snap(h, c):
    """The variables with their values as they are now."""
    return {k: val(h, v[0], v[1]) for k, v in c.vars.items()}


def samevars(h, before, after, label, but=()):
    """Asserts that the variables other than the given ones are the same."""
    h.check(set(before) - set(but) == set(after) - set(but), label + ': which variables exist')
    for k in before:
        if k not in but:
            equal(h, before[k], after[k], label + ': ' + k)
