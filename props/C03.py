"""C03 decimal years"""
from fractions import Fraction
from symx.harness import harness, doc
from props.calendar_oracle import *

def _y(c, k='', lo=1600, hi=3900):
    return c.int('year'+k, lo, hi)

def _day(c, y, m, k=''):
    d = c.int('day'+k, 1, 31)
    c.assume(d <= month_length(y, m))
    return d

def ylen(y):
    return 365 + leap(y)

def _frac(c, num, y):
    """num / days in year without a symbolic division"""
    return num/366 if c.pick(leap(y) == 1) else num/365

@harness('C03', exact=True, configs=[dict(m=m) for m in range(1, 13)])
def calendar_to_decimal(c, m):
    y = _y(c)
    d = _day(c, y, m)
    h, mi, s = c.real('hour', 0, 24), c.real('minute', 0, 60), c.real('second', 0, 60)
    r = c.gt.time.convert_calendar_decimal(y, m, day=d, hour=h, minute=mi, second=s)
    doy = ordinal(y, m, d) - ordinal_jan1(y)
    c.same(len(r), 1, 'length')
    c.close(r[0], y + _frac(c, doy + h/24 + mi/1440 + s/86400, y), 1e-9, 'decimal year')

@harness('C03', exact=True, configs=[dict(m=m) for m in range(1, 13)])
def mid_month(c, m):
    y = _y(c)
    r = c.gt.time.convert_calendar_decimal(y, m)
    doy = ordinal(y, m, 1) - ordinal_jan1(y) + month_length(y, m)*(Fraction(1, 2) if c.sym else 0.5)
    c.close(r[0], y + _frac(c, doy, y), 1e-9, 'middle of the month')

@harness('C03', exact=True, configs=[dict(extra=()), dict(extra=('hour',)), dict(extra=('hour', 'minute', 'second'))])
def day_of_year(c, extra):
    y = _y(c)
    n = c.real('doy', 1, 367)
    c.assume(n <= ylen(y) + 1)
    kw = {k: c.real(k, 0, 24) for k in extra}
    r = c.gt.time.convert_calendar_decimal(y, 1, DofY=n, **kw)
    sc = dict(hour=24, minute=1440, second=86400)
    c.close(r[0], y + _frac(c, n - 1 + sum(v/sc[k] for k, v in kw.items()), y), 1e-9, 'decimal year')

@harness('C03', exact=True, configs=[dict(months=ms) for ms in ((1, 3), (12, 2), (2, 2))])
def arrays(c, months):
    ys = [_y(c, str(i), 1890, 2110) for i in range(len(months))]
    ds = [_day(c, y, m, str(i)) for i, (y, m) in enumerate(zip(ys, months))]
    hs = [c.real(f'hour{i}', 0, 24) for i in range(len(months))]
    r = c.gt.time.convert_calendar_decimal(c.array(ys), c.array(list(months)), day=c.array(ds), hour=c.array(hs))
    c.same(len(r), len(months), 'length')
    for i, m in enumerate(months):
        doy = ordinal(ys[i], m, ds[i]) - ordinal_jan1(ys[i]) + hs[i]/24
        c.close(r[i], ys[i] + _frac(c, doy, ys[i]), 1e-9, f'date {i}')

@harness('C03', exact=True, configs=[dict()])
def leap_years(c):
    y = _y(c)
    r = c.gt.time.calendar_days(y)
    c.same(len(r), 12, 'months')
    for m in range(1, 13):
        c.close(r[m-1], month_length(y, m), 1e-9, f'days in month {m}')

@harness('C03', exact=True, configs=[dict(lo=1901, hi=2099), dict(lo=1601, hi=2399)], thorough=[dict(lo=1000, hi=3899)])
def decimal_to_julian(c, lo, hi):
    """Julian day of a decimal year, for the years GRACE uses"""
    y = _y(c, lo=lo, hi=hi)
    f = c.real('fraction', 0, 1)
    c.assume(f < 1)
    c.assume(f <= 1 - Fraction(1, 10**9))
    jd = c.gt.time.calendar_to_julian(y + f)
    n = 366*f if c.pick(leap(y) == 1) else 365*f
    c.close(jd, ordinal_jan1(y) + n + (Fraction(3442849, 2) if c.sym else 1721424.5), 1e-5, 'julian day')

@harness('C03', exact=True, configs=[dict(m=m) for m in (1, 2, 3, 12)])
def decimal_round_trip(c, m):
    y = 2000 + 4*c.int('quad', 0, 24) + c.int('rem', 0, 3)
    d = _day(c, y, m)
    h = c.real('hour', 0, 24)
    c.assume((h >= Fraction(1, 100)) & (h <= 24 - Fraction(1, 100)))
    t = c.gt.time
    dec = t.convert_calendar_decimal(y, m, day=d, hour=h)
    jd = t.calendar_to_julian(dec[0])
    r = t.convert_julian(jd)
    c.close(r['year'], y, 1e-6, 'year')
    c.close(r['month'], m, 1e-6, 'month')
    c.close(r['day'], d, 1e-6, 'day')
    c.close(r['hour'] + r['minute']/60 + r['second']/3600, h, 1e-4, 'hour of day')

doc('C03', 'years 1600-3900 (arrays 1890-2110, decimal to Julian 1601-2399, thorough 1000-3899), every month and day, real-valued hour/minute/second; arrays of 1 and 2 dates')
