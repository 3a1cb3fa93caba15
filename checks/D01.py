"""Date arithmetic. The library's imports of datetime and _strptime get the standard library's own Python implementations of these
modules, so that the texts' digits and the length of the period are symbolic all the way. The reference computes instants with a
day count of its own (years starting in March, no tables)."""
from common import Failed
from fractions import Fraction

BUDGET = {'quick': 300, 'thorough': 850}

DIG = '0123456789'
# unit, microseconds
UNITS = [('seconds', 10 ** 6), ('minutes', 60 * 10 ** 6), ('hours', 3600 * 10 ** 6), ('days', 86400 * 10 ** 6),
         ('weeks', 7 * 86400 * 10 ** 6), ('milliseconds', 1000), ('microseconds', 1)]
DAY = 86400 * 10 ** 6
MAXDAY = 3652059
YEARS = ['2023', '2024']
ALLM = ['%02d' % m for m in range(1, 13)]


def num(h, s):
    v = 0
    for ch in s:
        v = v * 10 + h.digit(ch, DIG)
    return v


def dayno(h, y, m, d):
    """Days from the last day of the year 0 (so that 0001-01-01 is 1)."""
    if m <= 2:
        y, m = y - 1, m + 9
    else:
        m = m - 3
    return 365 * y + h.floor(h.q(y, 4)) - h.floor(h.q(y, 100)) + h.floor(h.q(y, 400)) + h.floor(h.q(153 * m + 2, 5)) + d - 306


def lastday(h, y, m):
    if m == 2:
        leap = y - 4 * h.floor(h.q(y, 4)) == 0 and (y - 100 * h.floor(h.q(y, 100)) != 0 or y - 400 * h.floor(h.q(y, 400)) == 0)
        return 29 if leap else 28
    return 30 if m in (4, 6, 9, 11) else 31


def read(h, s, month=None):
    """(microseconds since the day before 0001-01-01, offset text) of a text the calculator wrote. month: the number of the month,
    where it's known, else it is found by cases."""
    y, m, d = num(h, s[0:4]), s[5:7], num(h, s[8:10])
    h.check(h.is_true(s[4] == '-') and h.is_true(s[7] == '-'), 'the result has the form of a date')
    if month is None:
        for mm in ALLM:
            if h.is_true(m == mm):
                month = int(mm)
                break
        else:
            h.fail('the result has a month')
    h.check(d >= 1, 'the result has a day')
    h.check(d <= lastday(h, y, month), 'the result has a day of its month')
    t = 0
    rest = s[10:]
    if len(rest) and h.is_true(rest[0] == 'T'):
        hh, mm, ss = num(h, rest[1:3]), num(h, rest[4:6]), num(h, rest[7:9])
        h.check(hh <= 23, 'the result has an hour')
        h.check(mm <= 59, 'the result has a minute')
        h.check(ss <= 59, 'the result has a second')
        t = ((hh * 60 + mm) * 60 + ss) * 10 ** 6
        rest = rest[9:]
        if len(rest) and h.is_true(rest[0] == '.'):
            us = num(h, rest[1:7])
            h.check(us != 0, 'fractions of a second only where there are any')
            t = t + us
            rest = rest[7:]
        else:
            h.check(t != 0, 'a time only where it is not midnight')
    return dayno(h, y, month, d) * DAY + t, rest


def make(h, name, months, form, years):
    """A symbolic valid date: text, instant."""
    m = h.choose(name + 'm', months)
    ys = h.choose(name + 'y', years)
    ds = h.str(name + 'd', 2, DIG)
    y, d = int(ys), num(h, ds)
    h.assume(d >= 1)
    h.assume(d <= lastday(h, y, int(m)))
    text = ys + '-' + m + '-' + ds
    t = 0
    if form >= 1:
        H, M, S = [h.str(name + k, 2, DIG) for k in 'HMS'] if not h.p('hm', '') else [*h.p('hm'), h.str(name + 'S', 2, DIG)]
        hh, mm, ss = num(h, H), num(h, M), num(h, S)
        h.assume(hh <= 23)
        h.assume(mm <= 59)
        h.assume(ss <= 59)
        text = text + 'T' + H + ':' + M + ':' + S
        t = ((hh * 60 + mm) * 60 + ss) * 10 ** 6
        if form >= 2:
            f = h.str(name + 'f', h.p('fl', 6), DIG)
            text = text + '.' + f
            t = t + num(h, f) * 10 ** (6 - len(f))
    return text, dayno(h, y, int(m), d) * DAY + t


def calc(h, c, text, vs):
    E = h.lib('objects.exceptions')
    for k, v in vs.items():
        c.vars[k] = v if isinstance(v, tuple) else (v, None)
    try:
        r = c.calculate(text).results[-1]
        return r.value, r.unit
    except E.CalculatingException as e:
        return Failed(e), None


def period(h, c, name, m, units):
    N = h.lib('objects.number').Number
    U = h.lib('objects.units')
    u, us = h.choose(name + 'u', units)
    n = h.int(name, -m, m)
    d = h.choose(name + 'q', h.p('dens', [1]))
    unit = U.UnitPowerList.newfromunit(c.unit_normaliser.get_unit(u))
    h.coprime(n, d)
    return (N(n, d), unit), h.q(n * us, d)


def shift(h):
    """date +% period and date -% period, as operators and functions"""
    c = h.calc()
    tz = h.choose('tz', h.p('tz', ['']))
    text, t = make(h, 'a', h.p('months', ['01', '02', '12']), h.choose('form', h.p('forms', [0])), h.p('years', YEARS))
    v, us = period(h, c, 'n', h.p('m', 100), [x for x in UNITS if x[0] in h.p('units', ['days', 'hours'])])
    how = h.choose('how', h.p('how', ['+', 'add', '-', 'sub']))
    if how in ('-', 'sub'):
        us = -us
    r, u = calc(h, c, {'+': 'va +% vb', '-': 'va -% vb', 'add': 'dateadd(va, vb)', 'sub': 'datesubtract(va, vb)'}[how], {'va': text + tz, 'vb': v})
    want = t + us
    if isinstance(r, Failed):
        h.check(want < DAY or want >= (MAXDAY + 1) * DAY, 'adding a period within the calendar gives a date')
        h.cover('beyond the calendar')
        return
    h.check(u is None, 'a date has no unit')
    got, z = read(h, r)
    h.observe(r)
    h.check(z == h.p('tzs', {}).get(tz, ''), 'the offset is kept')
    h.check(abs(got - want) * 2 <= 1, 'the result is the date the period away, to the microsecond')
    h.cover('shifted')


def back(h):
    """the printed date is read as the same date, and adding and subtracting the period gives it back"""
    c = h.calc()
    text, t = make(h, 'a', h.p('months', ['02', '12']), h.choose('form', h.p('forms', [0])), h.p('years', YEARS))
    v, us = period(h, c, 'n', h.p('m', 100), [x for x in UNITS if x[0] in h.p('units', ['days'])])
    tz = h.choose('tz', h.p('tz', ['']))
    r, u = calc(h, c, '(va +% vb) -% vb', {'va': text + tz, 'vb': v})
    if isinstance(r, Failed):
        h.check(t + us < DAY or t + us >= (MAXDAY + 1) * DAY, 'adding a period within the calendar gives a date')
        return
    got, z = read(h, r)
    h.check(z == h.p('tzs', {}).get(tz, ''), 'the offset is kept')
    h.same(got, t, 'adding and subtracting a period gives back the date')
    h.cover('back')


def offset(tz):
    if tz == '' or tz == 'Z':
        return 0
    d = [int(x) for x in (tz[1:3], tz[-2:])] if len(tz) < 8 else [int(x) for x in tz[1:].split(':')]
    return (-1 if tz[0] == '-' else 1) * sum(x * k for x, k in zip(d, (3600, 60, 1))) * 10 ** 6


def difference(h):
    c = h.calc()
    fs = h.choose('forms', h.p('forms', [(0, 0)]))
    za, zb = h.choose('tz', h.p('tz', [('', '')]))
    ta, a = make(h, 'a', h.p('months', ['02', '12']), fs[0], h.p('years', YEARS))
    tb, b = make(h, 'b', h.p('months2', ['01', '03']), fs[1], h.p('years2', ['2024']))
    unit, us = h.choose('unit', h.p('units', [('', 10 ** 6)]))
    r, u = calc(h, c, 'datedifference(va, vb%s)' % (', ' + unit if unit else ''), {'va': ta + za, 'vb': tb + zb})
    if (za == '') != (zb == ''):
        h.check(isinstance(r, Failed), 'a date with an offset and one without have no difference')
        h.cover('refused')
        return
    h.check(not isinstance(r, Failed), 'two dates have a difference')
    h.check(str(u) == (unit or 'seconds') + '^1', 'in the unit asked for, or seconds')
    h.observe(r)
    d = (a - offset(za)) - (b - offset(zb))
    h.same(h.q(r) * us, d if d >= 0 else -d, 'the difference is the exact time between the dates')
    h.cover('difference')


def leads(h):
    """the difference leads from the earlier to the later date"""
    c = h.calc()
    fs = h.choose('forms', h.p('forms', [(0, 0)]))
    ta, a = make(h, 'a', h.p('months', ['02', '12']), fs[0], h.p('years', YEARS))
    tb, b = make(h, 'b', h.p('months2', ['03']), fs[1], h.p('years2', ['2024']))
    r, u = calc(h, c, 'va +% datedifference(va, vb)' if a <= b else 'vb +% datedifference(va, vb)', {'va': ta, 'vb': tb})
    h.check(not isinstance(r, Failed), 'the difference can be added')
    got, z = read(h, r)
    h.same(got, b if a <= b else a, 'adding the difference to the earlier date gives the later one')
    h.cover('leads')


def valid(h):
    """a text is a date exactly if the calendar has it"""
    c = h.calc()
    N = h.lib('objects.number').Number
    U = h.lib('objects.units')
    form = h.choose('form', h.p('forms', [0]))
    y = h.choose('y', h.p('years', ['0000', '1900', '2000']))
    m, d = h.str('m', 2, DIG), h.str('d', 2, DIG)
    text = y + '-' + m + '-' + d
    ok = int(y) >= 1 and num(h, m) >= 1 and num(h, m) <= 12 and num(h, d) >= 1
    if ok:
        for mm in range(1, 13):
            if num(h, m) == mm:
                break
        ok = num(h, d) <= lastday(h, int(y), mm)
    if form:
        t = h.str('t', 2, DIG)
        k = h.choose('k', [0, 1, 2])
        parts = ['12', '30', '15']
        parts[k] = t
        text = text + 'T' + parts[0] + ':' + parts[1] + ':' + parts[2]
        ok = ok and num(h, t) <= (23, 59, 59)[k]
    z = (N(0), U.UnitPowerList.newfromunit(c.unit_normaliser.get_unit('days')))
    r, u = calc(h, c, 'va +% vb', {'va': text, 'vb': z})
    if ok:
        h.check(not isinstance(r, Failed), 'a date of the calendar is accepted')
        h.check(r == text, 'nothing added is the same date')
        h.cover('a date')
    else:
        h.check(isinstance(r, Failed), 'what the calendar does not have is refused')
        h.cover('none')


FAR = [('0001-01-01', 315537897599999999, '9999-12-31T23:59:59.999999'), ('2000-01-01', 9000000000000001, '2285-03-13T16:00:00.000001'),
       ('1000-01-01', 270000000000000003, '9555-12-18T00:00:00.000003'), ('0099-12-31', 86400000000, '0100-01-01'),
       ('0099-01-01T00:00:00+01:30:15', 86400000000, '0099-01-02+013015'), ('0009-12-31T23:59:59.000001Z', 1000000, '0010-01-01T00:00:00.000001+0000')]


def far(h):
    """long periods given to the microsecond, small years"""
    c = h.calc()
    a, us, b = h.choose('case', FAR)
    N = h.lib('objects.number').Number
    U = h.lib('objects.units')
    p = (N(us, 10 ** 6), U.UnitPowerList.newfromunit(c.unit_normaliser.get_unit('seconds')))
    r, u = calc(h, c, 'va +% vb', {'va': a, 'vb': p})
    h.check(r == b, 'the date a long period later')
    r, u = calc(h, c, 'datedifference(va, vb)', {'va': a, 'vb': b})
    h.same(r, h.q(us, 10 ** 6), 'the length of a long period')
    h.cover('far')


TZ = {'': '', 'Z': '+0000', '+01:00': '+0100', '-0530': '-0530', '+13:45:30': '+134530', '-00:30': '-0030'}
HARNESSES = [
    dict(name='shift', fn=shift, quick=dict(m=100, units=['days', 'hours'], months=['02', '12'], how=['+', 'sub']),
         thorough=dict(m=800, months=ALLM, years=['1900', '2000', '2023', '2024'], units=['days', 'hours', 'weeks']),
         bounds='all days of the listed months of the listed years, whole numbers up to m of the listed units', covers=['shifted']),
    dict(name='shift-time', fn=shift, quick=dict(m=2000, units=['minutes', 'seconds'], months=['12'], years=['2024'], forms=[1], how=['+', 'sub']),
         thorough=dict(m=200000, units=['minutes', 'seconds', 'hours'], months=['02', '06', '12'], forms=[1]),
         bounds='all times of all days of the listed months of the listed years, whole numbers up to m of the listed units', covers=['shifted']),
    dict(name='shift-hires', fn=shift, quick=dict(m=200, units=['microseconds'], months=['12'], years=['2024'], forms=[2], how=['sub'], fl=6, hm=['00', '00']),
         thorough=dict(m=10 ** 7, units=['microseconds', 'milliseconds', 'seconds'], months=['02'], years=['2024'], how=['+', 'sub'], forms=[2]),
         bounds='all times to the microsecond (quick: of the first minute) of all days of the listed months of the listed years, whole numbers up to m of the listed units', covers=['shifted']),
    dict(name='fraction', fn=shift, quick=dict(m=100, units=['seconds', 'days'], months=['12'], years=['2023'], forms=[0], how=['+', '-'], dens=[7]),
         thorough=dict(m=10000, units=['seconds', 'days', 'microseconds'], months=['12'], years=['2023'], forms=[0, 1], dens=[2, 3, 7, 64]),
         bounds='fractions n/d of the listed units, n up to m', covers=['shifted']),
    dict(name='zone', fn=shift, quick=dict(m=50, units=['hours'], months=['02'], years=['2023'], forms=[0, 1], how=['+'], tz=list(TZ), tzs=TZ),
         thorough=dict(m=1000, units=['hours', 'seconds'], months=['02', '12'], forms=[0, 1, 2], how=['+', '-'], tz=list(TZ), tzs=TZ, fl=3),
         bounds='dates with each of 5 offsets and without, whole numbers up to m', covers=['shifted']),
    dict(name='zone-hires', fn=shift, quick=dict(m=0, units=['days'], months=['12'], years=['2023'], forms=[2], how=['+'], tz=['Z', '+13:45:30'], tzs=TZ, fl=6, hm=['00', '00']),
         thorough=dict(m=3, units=['seconds', 'days'], months=['12'], years=['2023'], forms=[2], how=['+', 'sub'], tz=['Z', '+13:45:30'], tzs=TZ, fl=6, hm=['00', '00']),
         bounds='dates with offsets to the microsecond in the first minute of the days of December 2023', covers=['shifted']),
    dict(name='ends', fn=shift, quick=dict(m=60, units=['days'], months=['01', '12'], years=['0001', '0999', '9999'], forms=[0, 1], how=['-']),
         thorough=dict(m=4000, units=['days', 'hours'], months=ALLM, years=['0001', '0009', '0099', '0999', '9999'], forms=[0, 1], how=['+', '-']),
         bounds='years of up to three digits and the ends of the calendar, whole numbers of days up to m', covers=['shifted', 'beyond the calendar']),
    dict(name='back', fn=back, quick=dict(m=60, units=['days', 'hours'], forms=[0, 1], years=['2024'], months=['02']), thorough=dict(m=4000, units=['days', 'hours', 'seconds', 'microseconds'], forms=[0, 1, 2], tz=['', '+01:00'], tzs=TZ),
         bounds='all dates of the listed months, whole numbers up to m of the listed units', covers=['back']),
    dict(name='difference', fn=difference, quick=dict(forms=[(0, 0), (0, 1)], units=[('', 10 ** 6), ('days', DAY), ('hours', 3600 * 10 ** 6)], years=['2023']),
         thorough=dict(forms=[(0, 0), (0, 1), (1, 0), (2, 0), (2, 2)], years=['1900', '2000', '2023', '2024'], months=['01', '02', '03', '12'],
                       units=[('', 10 ** 6), ('days', DAY), ('hours', 3600 * 10 ** 6), ('weeks', 7 * DAY), ('milliseconds', 1000)]),
         bounds='all pairs of dates of the listed months and years', covers=['difference']),
    dict(name='difference-zone', fn=difference, quick=dict(tz=[('', 'Z'), ('+01:00', '-0530'), ('+13:45:30', 'Z'), ('-00:30', '')], months=['02'], years=['2024'], forms=[(0, 0), (1, 1)]),
         thorough=dict(tz=[(a, b) for a in TZ for b in TZ], months=['02'], years=['2024'], forms=[(0, 0), (1, 1)]),
         bounds='listed pairs of offsets', covers=['difference', 'refused']),
    dict(name='leads', fn=leads, quick=dict(forms=[(0, 0), (1, 0)], months=['02']), thorough=dict(forms=[(0, 0), (1, 0), (2, 1), (2, 2)], years=['1900', '2000', '2023', '2024']),
         bounds='all pairs of dates of the listed months and years', covers=['leads']),
    dict(name='valid', fn=valid, quick=dict(forms=[0, 1]), thorough=dict(forms=[0, 1], years=['0000', '0001', '0004', '0100', '1900', '1996', '2000', '2023', '2024', '9999']),
         bounds='listed years, any two digits as month, day and part of the time', covers=['a date', 'none']),
    dict(name='far', fn=far, quick={}, thorough={}, bounds='6 listed periods', covers=['far']),
]
