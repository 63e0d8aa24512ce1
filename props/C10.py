"""C10 synthesis of spatial fields from harmonics"""
import numpy as np
from symx.harness import harness, doc
from props.oracles import *

def coeffs(c, L, M):
    return c.reals('C', (L+1, M+1), -10, 10), c.reals('S', (L+1, M+1), -10, 10)

def lons(c, n):
    return [c.real(f'lon{i}', -180, 360) for i in range(n)]

SH = [dict(L=L, M=M, LMIN=mi, nlon=nlon, nlat=nlat, over=ov, plm=pl) for L, M, mi, nlon, nlat, ov, pl in (
    (1, None, 0, 2, 2, 0, False), (2, None, 0, 2, 3, 0, False), (3, None, 1, 2, 2, 2, False), (4, 2, 0, 2, 2, 0, False),
    (4, None, 2, 2, 3, 1, True), (5, 3, 2, 2, 2, 2, True), (3, 0, 0, 2, 2, 0, False), (6, None, 6, 2, 2, 0, False), (3, None, 0, 3, 4, 0, True), (6, None, 0, 2, 2, 0, False))]

@harness('C10', configs=SH, thorough=[dict(L=8, M=m, LMIN=mi, nlon=2, nlat=3, over=0, plm=False) for m in (None, 4) for mi in (0, 3)], mix=16)
def summation(c, L, M, LMIN, nlon, nlat, over, plm):
    Mx = L if M is None else M
    C, S = coeffs(c, L+over, Mx + (over if M is None else 0))
    lo = lons(c, nlon)
    la = LAT[nlat]
    P = plm_table(L, Mx, la)
    kw = dict(PLM=c.arr(plm_table(L, L, la))) if plm else {}
    f = c.gt.harmonic_summation(C, S, c.array(lo), c.arr(la), LMIN=LMIN, LMAX=L, MMAX=M, **kw)
    c.close(f, field(c, C, S, lo, P, LMIN, L, Mx), 1e-6, 'field')

@harness('C10', configs=[dict(L=L) for L in (1, 3)])
def summation_all_degrees(c, L):
    """LMAX=0 means every degree of the input"""
    C, S = coeffs(c, L, L)
    lo, la = lons(c, 2), LAT[2]
    f = c.gt.harmonic_summation(C, S, c.array(lo), c.arr(la), LMAX=0)
    c.close(f, field(c, C, S, lo, plm_table(L, L, la), 0, L, L), 1e-6, 'field')

@harness('C10', configs=[dict(L=L, n=n) for L, n in ((1, 2), (2, 2), (3, 2), (4, 2))], thorough=[dict(L=5, n=2)])
def summation_any_latitude(c, L, n):
    C, S = coeffs(c, L, L)
    lo = lons(c, 2)
    la = [c.real(f'lat{i}', -60, 60) for i in range(n)]
    f = c.gt.harmonic_summation(C, S, c.array(lo), c.array(la), LMAX=L)
    P = c.zeros((L+1, L+1, n))
    for i in range(n):
        x = c.np.cos((90.0 - la[i])*np.pi/180.0)
        u = c.np.sqrt(1.0 - x**2)
        for l in range(L+1):
            for m in range(l+1):
                P[l, m, i] = plm(l, m, x, u)
    c.close(f, field(c, C, S, lo, P, 0, L, L), 1e-6, 'field')

@harness('C10', configs=[dict(L=L, M=M, LMIN=mi, n=n, over=ov) for L, M, mi, n, ov in
    ((1, None, 0, 4, 0), (2, None, 0, 6, 0), (3, None, 1, 4, 2), (3, 1, 0, 5, 0), (4, None, 2, 12, 0), (5, 3, 0, 8, 1), (4, 0, 0, 3, 0), (4, None, 0, 3, 0), (5, None, 1, 4, 1), (3, None, 0, 1, 0), (6, 5, 0, 2, 0), (2, None, 0, 2, 0))],
    thorough=[dict(L=8, M=None, LMIN=0, n=36, over=0), dict(L=8, M=5, LMIN=2, n=18, over=0)])
def transform(c, L, M, LMIN, n, over):
    Mx = L if M is None else M
    C, S = coeffs(c, L+over, Mx + (over if M is None else 0))
    lo = np.linspace(0, 360, n+1)
    la = LAT[2]
    f = c.gt.harmonic_transform(C, S, c.arr(lo), c.arr(la), LMIN=LMIN, LMAX=L, MMAX=M)
    c.close(f, field(c, C, S, list(lo), plm_table(L, Mx, la), LMIN, L, Mx), 1e-6, 'field')

UN = ('norm', 'cmwe', 'mmwe', 'mmGH', 'mmCU', 'mmCH', 'cmVCU', 'mVCU', 'microGal', 'mbar', 'Pa')
CODE = {0: 'norm', 1: 'cmwe', 2: 'mmGH', 3: 'mmCU', 4: 'microGal', 5: 'mbar', 6: 'cmVCU'}

@harness('C10', configs=[dict(L=2+i % 3, M=None if i % 2 else 2, LMIN=i % 3, RAD=(0, 250, 800)[i % 3], units=u) for i, u in
    enumerate(UN + tuple(CODE) + ('custom', 'custom'))], mix=16)
def units_and_smoothing(c, L, M, LMIN, RAD, units):
    """unit factors and Gaussian weights multiply each degree"""
    C, S = coeffs(c, L, L if M is None else M)
    lo, la = lons(c, 2), LAT[2]
    Mx = L if M is None else M
    h, k, l = (c.reals(n, L+1, -0.3, 0.3) for n in 'hkl')
    if units == 'custom':
        U = f = c.reals('unit', L+1, -5, 5)
    else:
        U = units
        f = c.gt.units(lmax=L).harmonic(h, k, l).get(CODE.get(units, units))
    w = 2*np.pi*gauss_quadrature(RAD, L)
    sc = 1.0 if units in ('custom', 'norm', 0) else 1e10
    r = c.gt.stokes_summation(C, S, c.array(lo), c.arr(la), LMIN=LMIN, LMAX=L, MMAX=M, RAD=RAD, UNITS=U, LOVE=(h, k, l))
    c.close(r/sc, field(c, C, S, lo, plm_table(L, Mx, la), LMIN, L, Mx, weight=[w[i]*f[i]/sc for i in range(L+1)]), 1e-6, 'field')

@harness('C10', configs=[dict(L=1+i % 4, n=1+i % 3, RAD=(0, 300, 1000)[i % 3], units=u) for i, u in enumerate(UN + tuple(CODE) + ('custom', 'custom', 'custom', 'custom'))],
    thorough=[dict(L=6, n=2, RAD=r, units='custom') for r in (0, 500)], mix=16)
def clenshaw(c, L, n, RAD, units):
    """summation at scattered points gives the same field"""
    C, S = coeffs(c, L, L)
    lo = lons(c, n)
    la = LAT[n]
    h, k, l = (c.reals(x, L+1, -0.3, 0.3) for x in 'hkl')
    if units == 'custom':
        U = f = c.reals('unit', L+1, -5, 5)
    else:
        U = units
        f = c.gt.units(lmax=L).harmonic(h, k, l).get(CODE.get(units, units))
    w = 2*np.pi*gauss_quadrature(RAD, L)
    sc = 1.0 if units in ('custom', 'norm', 0) else 1e10
    r = c.gt.clenshaw_summation(C, S, c.array(lo), c.arr(la), LMAX=L, RAD=RAD, UNITS=U, LOVE=(h, k, l))
    c.close(r/sc, field(c, C, S, lo, plm_table(L, L, la), 0, L, L, weight=[w[i]*f[i]/sc for i in range(L+1)], pointwise=True), 1e-6, 'field')

@harness('C10', configs=[dict(L=L, n=n) for L, n in ((1, 1), (2, 2), (3, 1), (4, 1))])
def clenshaw_any_latitude(c, L, n):
    C, S = coeffs(c, L, L)
    lo = lons(c, n)
    la = [c.real(f'lat{i}', -90, 90) for i in range(n)]
    r = c.gt.clenshaw_summation(C, S, c.array(lo), c.array(la), LMAX=L, UNITS=[1.0]*(L+1))
    P = c.zeros((L+1, L+1, n))
    for i in range(n):
        th = (90.0 - la[i])*np.pi/180.0
        for l in range(L+1):
            for m in range(l+1):
                P[l, m, i] = plm(l, m, c.np.cos(th), c.np.sin(th))
    c.close(r, field(c, C, S, lo, P, 0, L, L, pointwise=True), 1e-6, 'field')

REAL_LOVE = lambda L: tuple(np.array(x[:L+1]) for x in zip(*[(-0.25 - 1.0/(l + 1), -0.3/(l + 1)**0.8, 0.02 + 0.1/(l + 2)) for l in range(L+1)]))

@harness('C10', configs=[dict(which=w, L=L, M=M, LMIN=mi, n=n, RAD=r, units=u) for w, L, M, mi, n, r, u in (('summation', 60, None, 0, 3, 0, None), ('summation', 40, 25, 2, 2, 0, None), ('transform', 45, None, 0, 90, 0, None), ('transform', 30, 20, 1, 100, 0, None),
    ('stokes', 60, None, 2, 2, 250, 'cmwe'), ('stokes', 40, 30, 0, 3, 0, 2), ('clenshaw', 60, None, 0, 2, 300, 1), ('clenshaw', 90, None, 0, 1, 0, 'custom'), ('clenshaw', 30, None, 0, 3, 0, 'mmwe'))],
    thorough=[dict(which=w, L=80, M=None, LMIN=0, n=2, RAD=r, units=u) for w, r, u in (('summation', 0, None), ('stokes', 150, 'cmwe'), ('clenshaw', 0, 'cmwe'), ('clenshaw', 400, 'cmwe'))])
def realistic(c, which, L, M, LMIN, n, RAD, units):
    """degrees of monthly solutions: listed coefficients times free factors"""
    Mx = L if M is None else M
    C, S = pattern(c, 'v', L, L if which == 'clenshaw' else Mx)
    h, k, l = (c.arr(x) for x in REAL_LOVE(L))
    if units == 'custom':
        U = f = np.round(np.random.default_rng(2).uniform(-3, 3, L+1), 3)
        U = c.arr(U)
    elif units is not None:
        U, f = units, c.gt.units(lmax=L).harmonic(h, k, l).get(CODE.get(units, units))
    w = 2*np.pi*np.maximum(gauss_quadrature(RAD, L), 1e-10)
    lo, la = ([23.5, 301.25, -77.0][:n], LAT[min(n, 3)]) if which != 'transform' else (list(np.linspace(0, 360, n+1)), LAT[2])
    P = legendre_table(L, Mx, la)
    wt = [1.0]*(L+1) if units is None else [float(w[i])*float(f[i]) for i in range(L+1)]
    sc = max(abs(x) for x in wt)
    # the sum over degrees is made here in the numbers, the factors stay free
    kw = dict(LMIN=LMIN, LMAX=L, MMAX=M)
    if which == 'summation':
        r = c.gt.harmonic_summation(C, S, c.arr(lo), c.arr(la), **kw)
    elif which == 'transform':
        r = c.gt.harmonic_transform(C, S, c.arr(lo), c.arr(la), **kw)
    elif which == 'stokes':
        r = c.gt.stokes_summation(C, S, c.arr(lo), c.arr(la), RAD=RAD, UNITS=U, LOVE=(h, k, l), **kw)
    else:
        r = c.gt.clenshaw_summation(C, S, c.arr(lo), c.arr(la), LMAX=L, RAD=RAD, UNITS=U, LOVE=(h, k, l))
    pick = range(0, n+1, 9) if which == 'transform' else range(n)
    for i in pick:
        for j in ([i] if which == 'clenshaw' else range(len(la))):
            v = 0.0
            for m in range(Mx+1):
                a, b = float(np.cos(m*np.radians(lo[i]))), float(np.sin(m*np.radians(lo[i])))
                for d in range(max(m, LMIN), L+1):
                    q = float(P[d, m, j])*wt[d]/sc
                    v = v + (q*a)*C[d, m] + (q*b)*S[d, m]
            c.close((r[i] if which == 'clenshaw' else r[i, j])/sc, v, 1e-6, 'field')

doc('C10', 'all coefficients in [-10,10], all longitudes in [-180,360], load Love numbers in [-0.3,0.3]; degrees to 6 (thorough 8), grids of up to 3x4 points or scattered points, listed latitudes (any latitude in [-60,60], scattered points in [-90,90] to degree 4); longitudes 0..360 in n steps for the FFT form; degrees 30-90 as listed coefficients times free factors')
