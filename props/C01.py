"""C01 calendar date -> days since an epoch"""
import datetime
from symx.harness import harness, doc
from props.calendar_oracle import *

YLO, YHI = 1583, 3000

def epoch_ordinal(ep):
    if isinstance(ep, str):
        ep = [int(x) for x in (ep.replace('T', '-').replace(':', '-').replace(' ', '-')).split('-')]
    ep = list(ep) + [0]*(6 - len(ep))
    from fractions import Fraction
    d = datetime.date(*ep[:3]).toordinal()
    return d + Fraction(ep[3]*3600 + ep[4]*60 + ep[5], 86400)

def spec(c, y, m, d, h, mi, s, ep):
    e = epoch_ordinal(ep)
    return ordinal(y, m, d) - int(e//1) + h/24 + mi/1440 + s/86400 - float(e % 1)

def _inputs(c, m, k='', ylo=YLO, yhi=YHI):
    y = c.int('year'+k, ylo, yhi)
    d = c.int('day'+k, 1, 31)
    c.assume(d <= month_length(y, m))
    h = c.real('hour'+k, 0, 24)
    mi = c.real('minute'+k, 0, 60)
    s = c.real('second'+k, 0, 60)
    return y, d, h, mi, s

EPOCHS = [(1992,1,1,0,0,0), (1858,11,17,0,0,0), (2000,1,1,12,0,0), (1970,1,1,0,0,0), '2002-01-01T00:00:00', (1980,1,6,0,0,0)]

@harness('C01', exact=True, configs=[dict(m=m, ep=EPOCHS[m % len(EPOCHS)]) for m in range(1, 13)],
    thorough=[dict(m=m, ep=e) for m in range(1, 13) for e in EPOCHS], mix=8)
def scalar_dates(c, m, ep):
    y, d, h, mi, s = _inputs(c, m)
    r = c.gt.time.convert_calendar_dates(y, m, d, hour=h, minute=mi, second=s, epoch=ep)
    c.close(r, spec(c, y, m, d, h, mi, s, ep), 1e-6, 'days since epoch')

@harness('C01', exact=True, configs=[dict(m=m, ylo=a, yhi=b) for m in (1, 2, 3, 9, 12) for a, b in ((1, 1582), (3001, 9999))],
    thorough=[dict(m=m, ylo=a, yhi=b) for m in range(1, 13) for a, b in ((1, 1582), (3001, 9999))])
def distant_dates(c, m, ylo, yhi):
    y, d, h, mi, s = _inputs(c, m, '', ylo, yhi)
    ep = (1992, 1, 1, 0, 0, 0)
    r = c.gt.time.convert_calendar_dates(y, m, d, hour=h, minute=mi, second=s)
    c.close(r, spec(c, y, m, d, h, mi, s, ep), 1e-6, 'days since epoch')

@harness('C01', exact=True, configs=[dict(m1=m, m2=(m+5) % 12 + 1, scale=sc) for m, sc in ((1, 1.0), (2, 24.0), (3, 86400.0), (12, 1440.0))], mix=8)
def array_dates(c, m1, m2, scale):
    y1, d1, h1, i1, s1 = _inputs(c, m1, '1')
    y2, d2, h2, i2, s2 = _inputs(c, m2, '2')
    ep = (2001, 1, 1, 0, 0, 0)
    a = c.array
    r = c.gt.time.convert_calendar_dates(a([y1, y2]), a([m1, m2]), a([d1, d2]), hour=a([h1, h2]),
        minute=a([i1, i2]), second=a([s1, s2]), epoch=ep, scale=scale)
    w = c.array([spec(c, y1, m1, d1, h1, i1, s1, ep), spec(c, y2, m2, d2, h2, i2, s2, ep)])
    c.close(r, w*int(scale), 1e-6*scale, 'scaled time since epoch')

@harness('C01', exact=True, configs=[dict(m=m) for m in (1, 2, 3, 8, 9, 12)])
def default_time_of_day(c, m):
    y = c.int('year', YLO, YHI)
    d = c.int('day', 1, 31)
    c.assume(d <= month_length(y, m))
    r = c.gt.time.convert_calendar_dates(y, m, d)
    c.close(r, spec(c, y, m, d, 0, 0, 0, (1992,1,1)), 1e-6, 'days since 1992')

@harness('C01', exact=True, configs=[dict()])
def symbolic_month(c):
    """one day later is one day more, across every month boundary"""
    y = c.int('year', 1900, 2100)
    m = c.int('month', 1, 12)
    f = c.gt.time.convert_calendar_dates
    nxt = f(y + (1 if c.pick(m == 12) else 0), 1 if c.pick(m == 12) else m + 1, 1)
    lens = c.gt.time.calendar_days(y)
    c.close(nxt - f(y, m, 1), lens[m.__index__() - 1], 1e-6, 'length of a month')

doc('C01', 'years 1-9999 (epochs other than the default: 1583-3000), every month, every valid day, real-valued hour/minute/second; scalars and arrays of 2; 6 epochs')
