"""C04 GRACE month number <-> calendar"""
from fractions import Fraction
from symx.harness import harness, doc
from props.calendar_oracle import *

GLO, GHI = -1200, 2400

@harness('C04', exact=True, configs=[dict(n=0), dict(n=1), dict(n=2)])
def grace_to_calendar(c, n):
    g = c.int('g', GLO, GHI) if n == 0 else c.ints('g', n, GLO, GHI)
    y, m = c.gt.time.grace_to_calendar(g)
    for i in range(max(n, 1)):
        gi, yi, mi = (g, y, m) if n == 0 else (g[i], y[i], m[i])
        c.true((mi >= 1) & (mi <= 12), 'month range')
        c.close((yi - 2002)*12 + mi, gi, 1e-6, 'count of months since December 2001')

@harness('C04', exact=True, configs=[dict(n=0), dict(n=2)])
def calendar_to_grace(c, n):
    y = c.int('y', 1900, 2200) if n == 0 else c.ints('y', n, 1900, 2200)
    m = c.int('m', 1, 12) if n == 0 else c.ints('m', n, 1, 12)
    g = c.gt.time.calendar_to_grace(y, month=m)
    for i in range(max(n, 1)):
        yi, mi, gi = (y, m, g) if n == 0 else (y[i], m[i], g[i])
        c.close(gi, 12*(yi - 2002) + mi, 1e-6, 'month number')

@harness('C04', exact=True, configs=[dict()])
def inverse(c):
    g = c.int('g', GLO, GHI)
    y, m = c.gt.time.grace_to_calendar(g)
    c.close(c.gt.time.calendar_to_grace(y, m), g, 1e-6, 'round trip')

@harness('C04', exact=True, configs=[dict(m=m) for m in range(1, 13)])
def decimal_to_grace(c, m):
    """a decimal date inside calendar month m maps to that month (equal twelfths)"""
    y = c.int('y', 1900, 2200)
    f = c.real('f', 0, 1)
    e = Fraction(1, 10**6)
    c.assume((f >= e) & (f <= 1 - e))
    t = y + ((m - 1) + f)/12
    c.close(c.gt.time.calendar_to_grace(t), 12*(y - 2002) + m, 1e-6, 'month number')

doc('C04', 'month numbers -1200..2400 (years 1900-2200), scalars and arrays of 1 and 2; any decimal date at least 1e-6 of a month inside a twelfth of the year')
