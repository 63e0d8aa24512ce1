"""C24 sea level equation"""
import numpy as np
from symx.harness import harness, doc
from props.oracles import *
from props.hutil import tri
from props.C11 import quadrature
from props.C12 import RAD, RHO

HL = np.array([-0.13, -0.29, -1.0, -1.05, -1.05, -1.08, -1.14])
KL = np.array([0.0, 0.021, -0.305, -0.196, -0.134, -0.105, -0.09])
# (values of a similar size at higher degrees)
HL = np.append(HL, -1.14 - 0.3*np.log(np.arange(7, 101)/6.0))
KL = np.append(KL, -0.55/np.arange(7, 101))
BODY = {0: (0.298, 0.604), 1: (0.3055, 0.6149)}
W = 7.292115e-5
FLUID = {0: 0.00328475/0.00348118, 1: 3.0*3.98004418e14/305.51*0.33068/(6.371e6**3*W**2), 2: 2.0/298.257223563*9.80665/(W**2*6.371e6) - 1.0, 3: 0.942}

def masks(nlon, nlat, kind):
    """land function [lon, lat]"""
    m = np.zeros((nlon, nlat))
    if kind == 'blocks':
        m[:nlon//3, :nlat//2] = 1
        m[nlon//2, -1] = 1
    elif kind == 'stripes':
        m[::3, :] = 1
    elif kind == 'cap':
        m[:, 0] = 1
        m[1, 1:] = 1
    return m

def step(c, H, load, land, lon, lat, L, k, h, body, fluid, polar, O, P):
    """one iteration: field over the ocean, its harmonics and the uniform shift"""
    A, B = c.zeros((L+1, L+1)), c.zeros((L+1, L+1))
    for l in range(L+1):
        for m in range(l+1):
            x = 3.0/RHO*(1.0 + k[l] - h[l])/(2*l+1.0)
            y = (1.0 + k[l] - h[l])/(1.0 + k[l])
            if l == 2 and m == 1 and polar:
                p = (1.0 + body[0] - body[1])*(1.0 + k[l])/(fluid - body[0])
                x = x + 3.0/RHO*p/(2*l+1.0)
                y = y + p/(1.0 + k[l])
            A[l, m] = x*H[0][l, m] + RAD*y*load[0][l, m]
            B[l, m] = x*H[1][l, m] + RAD*y*load[1][l, m]
    F = field(c, A, B, lon, P, 0, L, L)
    for i, j in np.ndindex(*land.shape):
        if land[i, j]:
            F[i, j] = 0.0
    return F

CF = [dict(L=L, nlon=a, nlat=b, kind=m, polar=p, body=bl, fluid=fl, it=it, plm=q, fill=f, north=no, love=lv) for L, a, b, m, p, bl, fl, it, q, f, no, lv in (
    (2, 6, 4, 'blocks', True, 0, 0, 1, False, 0, True, False), (1, 5, 3, 'stripes', True, 0, 0, 1, False, 0, True, False), (3, 7, 4, 'cap', False, 0, 0, 1, True, -9999.0, True, False),
    (3, 6, 4, 'blocks', True, 1, 1, 1, False, 0, False, False), (2, 6, 5, 'cap', True, (0.31, 0.62), 2, 1, False, 0, True, True), (4, 6, 5, 'stripes', True, 0, 3, 1, False, -1.0, True, False), (2, 5, 4, 'blocks', True, 1, (0.9,), 1, True, 0, True, False))]

def setup(c, L, nlon, nlat, kind, north, love):
    lon = [i*360.0/nlon for i in range(nlon)]
    lat = [90 - 90.0/nlat - i*180.0/nlat for i in range(nlat)]
    lat = lat if north else lat[::-1]
    land = masks(nlon, nlat, kind)
    h = c.reals('h', L+1, -2, 0) if love else c.arr(HL[:L+1])
    k = c.arr(KL[:L+1])
    P = plm_table(L, L, lat) if L < 10 else legendre_table(L, L, lat)
    w = np.cos(np.radians(lat))*np.radians(360.0/nlon)*np.radians(180.0/nlat)
    an = lambda F: quadrature(c, F, lon, lat, w, L, L, 0, [1/(4*np.pi)]*(L+1))
    return lon, lat, land, h, k, P, an

def solve(c, L, C, S, lon, lat, land, h, k, P, an, polar, body, fluid, it):
    O = an(c.arr(1.0 - land))
    area = 4*np.pi*O[0][0, 0]
    tm = -4.0*np.pi*RAD*RHO*C[0, 0]/3.0
    x = tm/area
    H = (O[0]*x, O[1]*x)
    for n in range(it):
        F = step(c, H, (C, S), land, lon, lat, L, k, h, body, fluid, polar, O, P)
        a, b = an(F)
        x = (tm - 4*np.pi*a[0, 0])/area
        H = (a + O[0]*x, b + O[1]*x)
        F = F + c.arr(1.0 - land)*x
    return F, tm

def kwargs(c, L, lat, body, fluid, plm, fill, polar):
    kw = dict(PLM=c.arr(plm_table(L, L, lat))) if plm else {}
    if fill:
        kw['FILL_VALUE'] = fill
    if body:
        kw['BODY_TIDE_LOVE'] = body
    if fluid:
        kw['FLUID_LOVE'] = fluid
    if not polar:
        kw['POLAR'] = False
    b = BODY[body] if isinstance(body, int) else body
    f = FLUID[fluid] if isinstance(fluid, int) else fluid[0]
    return kw, b, f

def check(c, R, F, tm, land, lat, nlon, nlat, fill):
    E = F.copy()
    for i, j in np.ndindex(*land.shape):
        if land[i, j]:
            E[i, j] = fill
    c.close(R, E, 1e-6, 'sea level')
    # mass over the ocean balances the load
    s = 0.0
    for i, j in np.ndindex(*land.shape):
        if not land[i, j]:
            s = s + R[i, j]*float(np.cos(np.radians(lat[j]))*np.radians(360.0/nlon)*np.radians(180.0/nlat))
    c.close(s, tm, 1e-5, 'mass')

@harness('C24', configs=CF, thorough=[dict(L=5, nlon=12, nlat=7, kind='blocks', polar=True, body=0, fluid=0, it=1, plm=False, fill=0, north=True, love=False)])
def one_iteration(c, L, nlon, nlat, kind, polar, body, fluid, it, plm, fill, north, love):
    C, S = tri(c, 'y', L, L, lo=-10, hi=10)
    C, S = C*1e-9, S*1e-9
    lon, lat, land, h, k, P, an = setup(c, L, nlon, nlat, kind, north, love)
    kw, b, f = kwargs(c, L, lat, body, fluid, plm, fill, polar)
    c0, s0, l0 = C.copy(), S.copy(), land.copy()
    G = c.arr(land)
    R = c.gt.sea_level_equation(C, S, c.arr(lon), c.arr(lat), G, LMAX=L, LOVE=(h, k, c.zeros(L+1)), ITERATIONS=it, **kw)
    F, tm = solve(c, L, c0, s0, lon, lat, land, h, k, P, an, polar, b, f, it)
    check(c, R, F, tm, land, lat, nlon, nlat, fill)
    c.close(C*1e9, c0*1e9, 0, 'load')
    c.close(S*1e9, s0*1e9, 0, 'load')
    c.close(G, c.arr(l0), 0, 'land')

def converged(c, H, N, L, s):
    """change of the total amplitude, relative to the previous iterate"""
    amp = lambda Y: sum(abs(c.np.sqrt(Y[0][l, m]**2 + Y[1][l, m]**2)/s) for l in range(L+1) for m in range(l+1))
    return abs((amp(N) - amp(H))/amp(H))

CS = [dict(L=L, nlon=a, nlat=b, kind=m, polar=p, body=bl, fluid=fl, it=it, seed=sd, sign=sg, fill=f) for L, a, b, m, p, bl, fl, it, sd, sg, f in (
    (2, 6, 4, 'blocks', True, 0, 0, 2, 1, 1, 0), (3, 7, 5, 'stripes', True, 0, 1, 3, 2, -1, 0), (4, 9, 6, 'cap', False, 1, 0, 6, 3, 1, -9999.0), (5, 8, 7, 'blocks', True, 0, 2, None, 4, 1, 0), (2, 5, 4, 'stripes', True, 1, 3, 1, 5, 1, 0))] + [
    dict(L=L, nlon=a, nlat=b, kind=m, polar=True, body=0, fluid=0, it=it, seed=sd, sign=1, fill=0, sine=True) for L, a, b, m, it, sd in ((2, 6, 4, 'blocks', 8, 6), (3, 7, 5, 'stripes', 12, 7), (3, 8, 5, 'cap', 10, 9), (2, 5, 4, 'stripes', 10, 10))] + [
    dict(L=L, nlon=a, nlat=b, kind=m, polar=True, body=0, fluid=0, it=12, seed=sd, sign=1, fill=0) for L, a, b, m, sd in ((2, 6, 4, 'blocks', 12), (3, 7, 5, 'stripes', 15))] + [
    dict(L=L, nlon=a, nlat=b, kind=m, polar=True, body=0, fluid=0, it=it, seed=sd, sign=1, fill=0) for L, a, b, m, it, sd in ((12, 26, 13, 'blocks', 2, 21), (24, 20, 13, 'cap', 1, 22))]

@harness('C24', configs=CS, thorough=[dict(L=6, nlon=24, nlat=13, kind='blocks', polar=True, body=0, fluid=0, it=6, seed=7, sign=1, fill=0),
    dict(L=6, nlon=18, nlat=12, kind='cap', polar=True, body=0, fluid=0, it=20, seed=8, sign=-1, fill=0)])
def iterations(c, L, nlon, nlat, kind, polar, body, fluid, it, seed, sign, fill, sine=False):
    rng = np.random.default_rng(seed)
    s = c.real('s', 1, 10)*sign
    ut = np.tril(np.ones((L+1, L+1)))
    C, S = ut*rng.standard_normal((L+1, L+1)), ut*rng.standard_normal((L+1, L+1))
    S[:, 0] = 0
    if sine:
        # antisymmetric loads: little change of the cosine coefficients
        C *= 0.02
    C, S = c.arr(C)*s*1e-9, c.arr(S)*s*1e-9
    lon, lat, land, h, k, P, an = setup(c, L, nlon, nlat, kind, True, False)
    kw, b, f = kwargs(c, L, lat, body, fluid, False, fill, polar)
    if it is not None:
        kw['ITERATIONS'] = it
    n = 6 if it is None else it
    R = c.gt.sea_level_equation(C, S, c.arr(lon), c.arr(lat), c.arr(land), LMAX=L, LOVE=(h, k, c.zeros(L+1)), **kw)
    O = an(c.arr(1.0 - land))
    area = 4*np.pi*O[0][0, 0]
    tm = -4.0*np.pi*RAD*RHO*C[0, 0]/3.0
    H = (O[0]*(tm/area), O[1]*(tm/area))
    F = None
    for j in range(n):
        F = step(c, H, (C, S), land, lon, lat, L, k, h, b, f, polar, O, P)
        a, bb = an(F)
        x = (tm - 4*np.pi*a[0, 0])/area
        N = (a + O[0]*x, bb + O[1]*x)
        F = F + c.arr(1.0 - land)*x
        e = converged(c, H, N, L, s)
        H = N
        if not c.pick(e > 1e-4):
            break
    if n:
        check(c, R, F, tm, land, lat, nlon, nlat, fill)

doc('C24', 'all load harmonics up to 1e-8 in size, vertical load Love numbers in [-2,0], listed land functions on grids to 7x5 (thorough 12x7), degrees to 4 (5), one iteration for any load; up to 6 (20) iterations with the convergence test for scaled load patterns, degrees to 24, grids to 26x13')
