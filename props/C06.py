"""C06 delta times between epochs"""
import datetime
from fractions import Fraction
from symx.harness import harness, doc

EP = [(1970,1,1,0,0,0), (2000,1,1,12,0,0), (1980,1,6,0,0,0), (1858,11,17,0,0,0), [2002,4,1,6,30,15], '2002-01-01T00:00:00', '1992-02-29 00:00:00', '2100-03-01T12:00:00', '2002-01-01T00:00:00Z', '2010-07-15T22:30:00+05:30', '1999-12-31T20:00:00-08:00']

def _dt(e):
    if isinstance(e, str):
        d = datetime.datetime.fromisoformat(e)
        return d.astimezone(datetime.timezone.utc).replace(tzinfo=None) if d.tzinfo else d
    return datetime.datetime(*e)

def _sec(a, b):
    d = _dt(a) - _dt(b)
    return d.days*86400 + d.seconds

@harness('C06', exact=True, configs=[dict(a=i, b=(i*3+1) % 8, scale=s) for i, s in enumerate((1.0, 1.0/86400.0, 1.0/3600.0, 2.0, 1.0, 1000.0, 0.5, 1.0))] +
    [dict(a=8, b=9, scale=1.0), dict(a=10, b=1, scale=1.0/86400.0), dict(a=4, b=10, scale=2.0)], mix=16)
def between_epochs(c, a, b, scale):
    d = c.reals('delta', 2, -1e10, 1e10)
    r = c.gt.time.convert_delta_time(d, epoch1=EP[a], epoch2=EP[b], scale=scale)
    c.close(r, (d + _sec(EP[a], EP[b]))*scale, 1e-4*max(scale, 1), 'rescaled delta time')

@harness('C06', exact=True, configs=[dict(a=a, b=b) for a, b in ((0, 1), (4, 5), (7, 2))])
def there_and_back(c, a, b):
    d = c.real('delta', -1e10, 1e10)
    t = c.gt.time
    r = t.convert_delta_time(t.convert_delta_time(d, epoch1=EP[a], epoch2=EP[b]), epoch1=EP[b], epoch2=EP[a])
    c.close(r, d, 1e-4, 'round trip')

@harness('C06', exact=True, configs=[dict(a=a, b=b) for a, b in ((0, 1), (4, 3), (5, 2))])
def agrees_with_calendar(c, a, b):
    """the same calendar date counted from two epochs differs by their distance"""
    y, d = c.int('y', 1900, 2100), c.int('d', 1, 28)
    s = c.real('s', 0, 86400)
    t = c.gt.time
    ta = t.convert_calendar_dates(y, 7, d, second=s, epoch=EP[a], scale=86400.0)
    tb = t.convert_calendar_dates(y, 7, d, second=s, epoch=EP[b], scale=86400.0)
    c.close(t.convert_delta_time(ta, epoch1=EP[a], epoch2=EP[b]), tb, 1e-3, 'seconds since second epoch')

UNITS = dict(seconds=1, second=1, sec=1, s=1, minutes=60, minute=60, min=60, mins=60, hours=3600, hour=3600, hr=3600, h=3600, days=86400, day=86400, d=86400, milliseconds=1e-3, microseconds=1e-6)

@harness('C06', exact=True, configs=[dict(u=u, e=e) for u, e in (('seconds', 5), ('Days', 6), ('hours', 8), ('MINUTES', 9), ('day', 10), ('microseconds', 7), ('h', 5), ('min', 9), ('s', 6))], mix=16)
def date_strings(c, u, e):
    """times in units since an epoch, from their attribute"""
    t = c.gt.time
    x = c.real('x', -1e5, 1e5)
    epoch, f = t.parse_date_string(f'{u} since {EP[e]}')
    b = _dt(EP[e])
    c.same(list(epoch), [b.year, b.month, b.day, b.hour, b.minute, b.second], 'epoch in UTC')
    c.close(f, UNITS[u.lower()], 1e-12, 'seconds per unit')
    r = t.convert_delta_time(x*f, epoch1=epoch, epoch2=EP[0], scale=1.0/86400.0)
    c.close(r, (x*UNITS[u.lower()] + _sec(EP[e], EP[0]))/86400, 1e-6, 'days since 1970')
    units, d = t.split_date_string(f'{u} since {EP[e]}')
    c.same((units, d), (u.lower(), b), 'units and date')
    epoch, f = t.parse_date_string(EP[e])
    c.same((list(epoch), f), ([b.year, b.month, b.day, b.hour, b.minute, b.second], 0.0), 'date')
    for bad in ('fortnights since 2000-01-01', 'days', 'days since'):
        try:
            t.parse_date_string(bad)
        except ValueError:
            pass
        else:
            c.true(False, f'{bad!r} is an error')

@harness('C06', exact=True, configs=[dict(e=e) for e in (0, 1, 4, 7, 8, 9)])
def datetimes(c, e):
    """arrays of dates to seconds since an epoch and on to another"""
    t = c.gt.time
    import numpy as np
    d = np.array(['1858-11-17T00:00:00', '2002-02-28T23:59:59', '2100-12-31T12:30:01'], dtype='datetime64[s]')
    s = t.convert_datetime(d, epoch=EP[e])
    w = [_sec(str(x), EP[e]) for x in d]
    c.close(s, np.array(w, dtype=float), 1e-6, 'seconds since epoch')
    x = c.real('x', -1e8, 1e8)
    c.close(t.convert_delta_time(c.array([v + x for v in s]), epoch1=EP[e], epoch2=EP[2]), c.array([v + x + _sec(EP[e], EP[2]) for v in w]), 1e-4, 'seconds since another')
    if e == 0:
        c.close(t.convert_datetime(d), np.array(w, dtype=float), 1e-6, 'default epoch')

doc('C06', 'delta times in [-1e10,1e10] s, 11 epochs given as tuples, lists and strings (time zones), 6 scales; listed units; calendar dates 1900-2100')
