"""Units as published, independent of the code: scales in base units (exact) and dimensions."""
from fractions import Fraction as F

L, M, T, I, K, N, J, SR, A, D = 'LMTIKNJSAD'
DIM = {'distance': {L: 1}, 'time': {T: 1}, 'mass': {M: 1}, 'electriccurrent': {I: 1}, 'temperature': {K: 1}, 'substance': {N: 1},
       'luminousintensity': {J: 1}, 'solidangle': {SR: 1}, 'angle': {A: 1}, 'data': {D: 1},
       'absorbeddose': {L: 2, T: -2}, 'equivalentdose': {L: 2, T: -2}, 'acceleration': {L: 1, T: -2}, 'area': {L: 2}, 'volume': {L: 3},
       'capacitance': {L: -2, M: -1, T: 4, I: 2}, 'electricalconductance': {L: -2, M: -1, T: 3, I: 2}, 'electricalpotential': {L: 2, M: 1, T: -3, I: -1},
       'electriccharge': {I: 1, T: 1}, 'energy': {L: 2, M: 1, T: -2}, 'force': {L: 1, M: 1, T: -2}, 'frequency': {T: -1}, 'illuminance': {J: 1, SR: 1, L: -2},
       'inductance': {L: 2, M: 1, T: -2, I: -2}, 'luminousflux': {J: 1, SR: 1}, 'magneticflux': {L: 2, M: 1, T: -2, I: -1}, 'magneticfluxdensity': {M: 1, T: -2, I: -1},
       'power': {L: 2, M: 1, T: -3}, 'pressure': {L: -1, M: 1, T: -2}, 'radioactivity': {T: -1}, 'resistance': {L: 2, M: 1, T: -3, I: -2}, 'velocity': {L: 1, T: -1},
       'catalyticactivity': {N: 1, T: -1}}
C = 299792458
# plural name -> (dimension, scale in SI base units)
UNITS = {
    'meters': ('distance', 1), 'lightyears': ('distance', C * 31557600), 'lightweeks': ('distance', C * 604800), 'lightdays': ('distance', C * 86400),
    'lighthours': ('distance', C * 3600), 'lightminutes': ('distance', C * 60), 'lightseconds': ('distance', C), 'astronomical units': ('distance', 149597870700),
    'parsecs': ('distance', 30856775810000000), 'inches': ('distance', F('0.0254')), 'feet': ('distance', F('0.3048')), 'yards': ('distance', F('0.9144')),
    'miles': ('distance', F('1609.344')), 'nautical miles': ('distance', 1852),
    'seconds': ('time', 1), 'minutes': ('time', 60), 'hours': ('time', 3600), 'days': ('time', 86400), 'weeks': ('time', 604800), 'months': ('time', 2629746), 'years': ('time', 31556952),
    'grays': ('absorbeddose', 1), 'gees': ('acceleration', F('9.80665')), 'radians': ('angle', 1), 'degrees': ('angle', F(314159265358979323846264338327950288419716939937511, 180 * 10 ** 50)), 'amperes': ('electriccurrent', 1),
    'acres': ('area', F('4046.9')), 'hectares': ('area', 10000),
    'grams': ('mass', F(1, 1000)), 'tonnes': ('mass', 1000), 'grains': ('mass', F('0.00006479891')), 'ounces': ('mass', F('0.028349523125')), 'pounds': ('mass', F('0.45359237')),
    'stone': ('mass', F('6.35029318')), 'short tons': ('mass', F('907.18474')), 'long tons': ('mass', F('1016.0469088')),
    'farads': ('capacitance', 1), 'moles': ('substance', 1), 'katals': ('catalyticactivity', 1), 'bits': ('data', 1), 'bytes': ('data', 8), 'siemens': ('electricalconductance', 1),
    'volts': ('electricalpotential', 1), 'coulombs': ('electriccharge', 1), 'joules': ('energy', 1), 'sieverts': ('equivalentdose', 1), 'newtons': ('force', 1), 'hertz': ('frequency', 1),
    'candelas': ('luminousintensity', 1), 'steradians': ('solidangle', 1), 'lux': ('illuminance', 1), 'henries': ('inductance', 1), 'lumens': ('luminousflux', 1),
    'webers': ('magneticflux', 1), 'teslas': ('magneticfluxdensity', 1), 'watts': ('power', 1), 'pascals': ('pressure', 1), 'atmospheres': ('pressure', 101325),
    'pound-force per square inch': ('pressure', F('6894.757')), 'becquerels': ('radioactivity', 1), 'ohms': ('resistance', 1),
    'kelvin': ('temperature', 1), 'Celsius': ('temperature', 1), 'Fahrenheit': ('temperature', F(5, 9)), 'knots': ('velocity', F(1852, 3600)),
    'liters': ('volume', F(1, 1000)), 'UK fluid ounces': ('volume', F('4.54609') / 160000), 'UK gills': ('volume', F('4.54609') / 32000), 'UK pints': ('volume', F('4.54609') / 8000),
    'UK quarts': ('volume', F('4.54609') / 4000), 'UK gallons': ('volume', F('4.54609') / 1000), 'US drams': ('volume', F('3.785411784') / 2048000),
    'US fluid ounces': ('volume', F('3.785411784') / 128000), 'US gills': ('volume', F('3.785411784') / 32000), 'US cups': ('volume', F('3.785411784') / 16000),
    'US pints': ('volume', F('3.785411784') / 8000), 'US quarts': ('volume', F('3.785411784') / 4000), 'US gallons': ('volume', F('3.785411784') / 1000),
}
PREFIX = {'exa': 18, 'peta': 15, 'tera': 12, 'giga': 9, 'mega': 6, 'kilo': 3, 'hecto': 2, 'deca': 1, 'deka': 1, 'deci': -1, 'centi': -2, 'milli': -3, 'micro': -6, 'nano': -9,
          'pico': -12, 'femto': -15, 'atto': -18, 'zetta': 21, 'yotta': 24}
IEC = {'kibi': 1, 'mebi': 2, 'gibi': 3, 'tebi': 4, 'pebi': 5, 'exbi': 6, 'zebi': 7, 'yobi': 8}


def info(name):
    """(dimension, scale) of a unit given by its plural name, as a Fraction; None if not in the table."""
    if name in UNITS:
        d, s = UNITS[name]
        return d, F(s)
    for table, base in ((PREFIX, 10), (IEC, 1024)):
        for p, e in table.items():
            if name.startswith(p) and name[len(p):] in UNITS:
                d, s = UNITS[name[len(p):]]
                return d, F(s) * F(base) ** e
    return None


def parts(unit):
    """[(plural name, power)] of the calculator's unit object; powers must be whole."""
    out = []
    if unit is None:
        return out
    for up in unit.list():
        n, d = up.power.num, up.power.den
        assert int(d) == 1, 'fractional power'
        out.append((up.unit.plural(), int(n)))
    return out


def of(unit):
    """(dimensions, scale) of the calculator's unit object."""
    return combine(parts(unit))


def combine(ps):
    dims, scale = {}, F(1)
    for name, n in ps:
        d, s = info(name)
        scale *= s ** n
        for k, v in DIM[d].items():
            dims[k] = dims.get(k, 0) + v * n
    return {k: v for k, v in dims.items() if v}, scale


def text(ps):
    """A unit written out, with parts [(name, power)]."""
    return ' '.join(n if p == 1 else n + '^' + str(p) if p > 0 else n + '^(' + str(p) + ')' for n, p in ps)
