"""C02 Julian day -> calendar date and time (inverse of the calendar count)"""
from fractions import Fraction
import numpy as np
from symx.harness import harness, doc
from props.calendar_oracle import *

# Julian day of the midnight starting a date: ordinal + 1721424.5
JD0 = Fraction(3442849, 2)

def _date(c, m, ylo, yhi, k=''):
    """year written 100 q + 4 a + b: helps the solver see the leap rule"""
    q = ylo//100 if ylo//100 == yhi//100 else c.int('century'+k, ylo//100, yhi//100)
    y = 100*q + 4*c.int('quad'+k, 0, 24) + c.int('rem'+k, 0, 3)
    c.assume((y >= ylo) & (y <= yhi))
    d = c.int('day'+k, 1, 31)
    c.assume(d <= month_length(y, m))
    return y, d

def _jd(c, n, f):
    return n + (JD0 if c.sym else float(JD0)) + f

MON = list(range(1, 13))

def _check(c, y, m, d, f, r):
    """fields name the same day and reproduce the fraction f of the day"""
    c.close(r['year'], y, 1e-6, 'year')
    c.close(r['month'], m, 1e-6, 'month')
    c.close(r['day'], d, 1e-6, 'day')
    c.true((r['hour'] >= 0) & (r['hour'] <= 23), 'hour range')
    c.true((r['minute'] >= 0) & (r['minute'] <= 59), 'minute range')
    c.true((r['second'] > -1e-3) & (r['second'] < 60 + 1e-3), 'second range')
    c.close(r['hour']*3600 + r['minute']*60 + r['second'], f*86400, 2e-3, 'seconds of the day')

CENT = [(1900, 1999), (2000, 2099)]
MORE = [(1583, 1599)] + [(a, a + 99) for a in (1600, 1700, 1800, 2100, 2200, 2300, 2400, 2700, 2900)]

@harness('C02', exact=True, configs=[dict(m=m, ylo=a, yhi=b) for m in MON for a, b in CENT] +
        [dict(m=m, ylo=a, yhi=b) for m in (1, 2, 3, 12) for a, b in ((1583, 1599), (1600, 1699), (1800, 1899), (2100, 2199))],
    thorough=[dict(m=m, ylo=a, yhi=b) for m in MON for a, b in MORE])
def scalar(c, m, ylo, yhi):
    y, d = _date(c, m, ylo, yhi)
    f = c.real('fraction', 0, 1)
    # strictly inside a day and away from the second boundaries of double precision
    c.assume((f >= Fraction(1, 10**6)) & (f <= 1 - Fraction(1, 10**6)))
    r = c.gt.time.convert_julian(_jd(c, ordinal(y, m, d), f))
    _check(c, y, m, d, f, r) if c.sym else _check_tol(c, y, m, d, f, r)

def _check_tol(c, y, m, d, f, r):
    # double precision of a Julian day is 4e-10 days: the split into hour,
    # minute and second may move by one unit, their total may not
    c.close(r['year'], y, 1e-6, 'year')
    c.close(r['month'], m, 1e-6, 'month')
    c.close(r['day'], d, 1e-6, 'day')
    c.true(0 <= r['hour'] <= 23, 'hour range')
    c.true(0 <= r['minute'] <= 59, 'minute range')
    c.true(-1e-3 < r['second'] < 60 + 1e-3, 'second range')
    c.close(r['hour']*3600 + r['minute']*60 + r['second'], f*86400, 2e-3, 'seconds of the day')

@harness('C02', exact=True, configs=[dict(m=2, fmt='tuple'), dict(m=10, fmt='zip'), dict(m=3, fmt='dict'), dict(m=12, fmt='tuple', old=True)], mix=16)
def arrays_and_formats(c, m, fmt, old=False):
    m2 = (m % 12) + 1
    y1, d1 = _date(c, m, 1900, 1999, '1')
    y2, d2 = _date(c, m2, 2000, 2099, '2')
    # 43200 s: the middle of the day is exactly representable
    h = Fraction(1, 2) if c.sym else 0.5
    jd = c.array([_jd(c, ordinal(y1, m, d1), h), _jd(c, ordinal(y2, m2, d2), h)])
    kw = dict(FORMAT=fmt, ASTYPE=np.int64) if old else dict(format=fmt, astype=np.int64)
    r = c.gt.time.convert_julian(jd, **kw)
    if fmt == 'dict':
        r = [r[k] for k in ('year', 'month', 'day', 'hour', 'minute', 'second')]
    if fmt == 'zip':
        r = list(zip(*list(r)))
    c.true(True if c.sym else all(np.asarray(x).dtype.kind == 'i' for x in r), 'type')
    w = [[y1, y2], [m, m2], [d1, d2], [12, 12], [0, 0], [0, 0]]
    c.same(len(r), 6, 'fields')
    for a, b, n in zip(r, w, ('year', 'month', 'day', 'hour', 'minute', 'second')):
        for i in range(2):
            c.close(a[i], b[i], 1e-6, n)

@harness('C02', exact=True, configs=[dict(m=10), dict(m=11), dict(m=12)])
def first_gregorian_days(c, m):
    """from 1582-10-15, the day the Gregorian calendar starts"""
    d = c.int('day', 15 if m == 10 else 1, 30 if m == 11 else 31)
    f = c.real('fraction', 0, 1)
    c.assume(f <= 1 - Fraction(1, 10**6))
    r = c.gt.time.convert_julian(_jd(c, ordinal(1582, m, d), f))
    c.close(r['year'], 1582, 1e-6, 'year')
    c.close(r['month'], m, 1e-6, 'month')
    c.close(r['day'], d, 1e-6, 'day')

@harness('C02', exact=True, configs=[dict(m=m) for m in (1, 2, 3, 12)])
def round_trip(c, m):
    """convert_calendar_dates after convert_julian is the identity on days"""
    y, d = _date(c, m, 2000, 2099)
    f = c.real('fraction', 0, 1)
    c.assume((f >= Fraction(1, 10**6)) & (f <= 1 - Fraction(1, 10**6)))
    t = c.gt.time
    mjd = t.convert_calendar_dates(y, m, d, hour=f*24, epoch=(1858, 11, 17, 0, 0, 0))
    Y, M, D, h, mi, s = t.convert_julian(mjd + 2400000.5, format='tuple')
    c.close(Y, y, 1e-6, 'year')
    c.close(M, m, 1e-6, 'month')
    c.close(D, d, 1e-6, 'day')
    back = t.convert_calendar_dates(y, m, d, hour=h, minute=mi, second=s, epoch=(1858, 11, 17, 0, 0, 0))
    c.close(back, mjd, 1e-7, 'days')

@harness('C02', exact=True, configs=[dict(m=m, q=q) for m, q in ((1, 0), (2, 5), (3, 10), (10, 15), (12, 15))],
    thorough=[dict(m=m, q=q) for m in MON for q in range(0, 16)])
def julian_calendar_before_1582(c, m, q):
    """before 1582-10-15 the date is in the Julian calendar (4-year leap rule)"""
    y = 100*q + 4*c.int('quad', 0, 24) + c.int('rem', 0, 3)
    b = y - 4*(y//4)
    d = c.int('day', 1, 31)
    c.assume((y >= 1) & (y <= (1582 if m < 10 else 1581)))
    if m == 2:
        c.assume((d <= 28) | ((d == 29) & (b == 0)))
    else:
        c.assume(d <= DPM[m-1])
    a = (14 - m)//12
    yy, mm = y + 4800 - a, m + 12*a - 3
    n = d + (153*mm + 2)//5 + 365*yy + yy//4 - 32083
    r = c.gt.time.convert_julian(n + (Fraction(0) if c.sym else 0.0), format='tuple')
    c.close(r[0], y, 1e-6, 'year')
    c.close(r[1], m, 1e-6, 'month')
    c.close(r[2], d, 1e-6, 'day')
    c.close(r[3], 12, 1e-6, 'noon')

doc('C02', 'Gregorian dates of 1583-1699, 1800-2199 (thorough: 1583-2499, 2700s, 2900s), every month and valid day, real time of day at least '
    '1e-6 of a day from midnight; Julian-calendar dates of years 1-1582 in selected centuries (thorough: all); arrays of 2; all output formats')
