"""N05: modulus and integer division decompose the dividend."""
from common import tryev, failed
LIBS = ['objects.number']
CALCS = ['Computing']


def h_div(h):
    c = h.calc('Computing')
    M, D = h.p('m'), h.p('d')
    x, qx = h.number('x', -M, M, D)
    y, qy = h.number('y', -M, M, D)
    m = tryev(h, c, 'vx % vy', {'vx': x, 'vy': y})
    d = tryev(h, c, 'vx \\ vy')
    if failed(m) or failed(d):
        h.check(qy == 0, 'both fail only for a zero divisor')
        h.check(failed(m) and failed(d), 'both are errors when the divisor is zero')
        h.cover('error')
        return
    h.check(qy != 0, 'a zero divisor is an error')
    qm, qd = h.q(m), h.q(d)
    h.check(qd == h.floor(qd), 'the quotient is whole')
    if qy > 0:
        h.check(qd * qy <= qx and qx < (qd + 1) * qy, 'the quotient is x / y rounded down')
        h.check(qm < qy and qm > -qy, 'the remainder is smaller than the divisor')
    else:
        h.check(qd * qy >= qx and qx > (qd + 1) * qy, 'the quotient is x / y rounded down')
        h.check(qm > qy and qm < -qy, 'the remainder is smaller than the divisor')
    h.check(qm >= 0 if qx >= 0 else qm <= 0, 'the remainder has the sign of the dividend')
    if (qx >= 0) == (qy > 0):
        h.check(qd * qy + qm == qx, 'the two fit together')
        h.cover('same sign')
    else:
        k = (qx - qm) / qy
        h.check(k == h.floor(k), 'the remainder differs from the dividend by a whole multiple')
        h.cover('mixed sign')


HARNESSES = [
    dict(name='div', fn=h_div, quick={'m': 10 ** 6, 'd': 10 ** 3}, thorough={'m': 10 ** 9, 'd': 10 ** 6}, bounds='fractions up to m/d', covers=['error', 'same sign', 'mixed sign']),
]
