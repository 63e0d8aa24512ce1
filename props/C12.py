"""C12 point, disc and spherical cap loads"""
import numpy as np
from symx.harness import harness, doc
from props.oracles import *

def earth():
    G, GM = 6.67430e-8, 3986004.418e14 - 3.5e14
    rad = 6.378137e8*(1.0 - 1.0/298.257223563)**(1.0/3.0)
    return rad, 0.75*GM/(G*np.pi*rad**3)

RAD, RHO = earth()

def love(c, L):
    return tuple(c.reals(x, L+1, -0.3, 0.3) for x in 'hkl')

def xu(c, lat):
    """sine and cosine of latitude"""
    th = np.pi*(90.0 - lat)/180.0
    return c.np.cos(th), c.np.sin(th)

def cap(l, x):
    """(2l+1)/2 times the integral of the Legendre polynomial from x to 1"""
    p = np.polynomial.Legendre.basis(l).convert(kind=np.polynomial.Polynomial)
    q = p.integ()
    s = float(q(1.0)) + 0*x
    for k, a in enumerate(q.coef):
        s = s - float(a)*x**k
    return (2*l+1)/2*s

PT = [dict(L=L, M=M, n=n, units=u, shape=s) for L, M, n, u, s in ((0, None, 2, 1, None), (1, None, 1, 1, None), (2, None, 3, 2, None), (3, 1, 2, 'list', None),
    (4, None, 2, 'array', None), (4, 2, 1, 2, None), (3, 0, 2, 1, None), (2, None, 4, 1, (2, 2)), (5, 3, 2, 1, None))]

@harness('C12', configs=PT, thorough=[dict(L=8, M=None, n=3, units=u, shape=None) for u in (1, 2, 'list')], mix=16, ok=lambda n, shape, **k: shape is None or n == 4)
def point_loads(c, L, M, n, units, shape):
    D = c.reals('D', n, -10, 10)
    lon = [c.real(f'lon{i}', -180, 360) for i in range(n)]
    lat = ([-33.0, 71.5, 0.0, 12.25])[:n]
    h, k, l = love(c, L)
    Mx = L if M is None else M
    if units in ('list', 'array'):
        f = c.reals('unit', L+1, -5, 5)
        U, sc = ([f[i] for i in range(L+1)] if units == 'list' else f), 1.0
    else:
        U = units
        f = c.array([3*(1 + k[i])/(2*i+1)/(4*np.pi*RAD**3*RHO) for i in range(L+1)])*(1 if U == 1 else 1e15)
        sc = 1e-27 if U == 1 else 1e-12
    sh = (n,) if shape is None else shape
    Y = c.gt.gen_point_load(D.reshape(sh), c.array(lon).reshape(sh), c.arr(lat).reshape(sh), LMAX=L, MMAX=M, UNITS=U, LOVE=(h, k, l))
    P = plm_table(L, Mx, lat)
    C, S = c.zeros((L+1, Mx+1)), c.zeros((L+1, Mx+1))
    for m in range(Mx+1):
        for i in range(n):
            cm, sm = c.np.cos(m*(np.pi*lon[i]/180.0)), c.np.sin(m*(np.pi*lon[i]/180.0))
            for d in range(m, L+1):
                C[d, m] = C[d, m] + f[d]*D[i]*P[d, m, i]*cm
                S[d, m] = S[d, m] + f[d]*D[i]*P[d, m, i]*sm
    c.close(Y.clm/sc, C/sc, 1e-6, 'cosine')
    c.close(Y.slm/sc, S/sc, 1e-6, 'sine')
    c.same((int(Y.lmax), int(Y.mmax)), (L, Mx), 'degree and order')

LC = ((0, None), (1, None), (2, None), (3, 1), (4, None), (4, 2), (3, 0))

@harness('C12', configs=[dict(L=L, M=M, kind=k, units=u, plm=p) for i, (L, M) in enumerate(LC) for k, u, p in
        (('disc', (1, 2, 3, 'list')[i % 4], i % 2), ('cap', (2, 3, 'array', 1)[i % 4], i % 3 == 0), ('disc', 2, 0), ('area', (1, 2, 3, 'list')[(i+1) % 4], i % 2), ('km', (1, 2, 3, 'list')[(i+2) % 4], 0), ('cap', 1, 0))],
    thorough=[dict(L=7, M=M, kind=k, units=u, plm=0) for M in (None, 4) for k in ('disc', 'cap', 'area', 'km') for u in (1, 2, 3, 'list')], mix=12)
def discs(c, L, M, kind, units, plm):
    """uniform load within an angular distance of a point"""
    D = c.real('D', -10, 10)
    lon = c.real('lon', -180, 360)
    lat = 37.5
    Mx = L if M is None else M
    h, k, l = love(c, L)
    kw = {}
    if kind == 'disc':
        area = c.real('area', 1e4, 2e6)        # km^2
        x = 1.0 - 1e10*area/(2*np.pi*RAD**2)
        cm2 = 1e10*area
    else:
        v = c.real('size', 0.5, 40)
        alpha = {'cap': v*np.pi/180.0, 'area': c.np.sqrt(v*1e15/np.pi)/RAD, 'km': 1e5*(v*30.0)/RAD}[kind]
        kw = {'cap': dict(RAD_CAP=v), 'area': dict(AREA=v*1e15), 'km': dict(RAD_KM=v*30.0)}[kind]
        x = c.np.cos(alpha)
        cm2 = np.pi*(alpha*RAD)**2
    sc = 1.0
    if units in ('list', 'array'):
        f = c.reals('unit', L+1, -5, 5)
        U = [f[i] for i in range(L+1)] if units == 'list' else f
        scale = 1.0
    else:
        U = units
        # surface density in g/cm^2
        scale = {1: 1.0, 2: 1e15/cm2, 3: 0.1}[U]
        f = c.array([3*(1 + k[i])/(2*i+1)**2/(RAD*RHO) for i in range(L+1)])
        sc = 1e-10
    if plm:
        kw['PLM'] = c.arr(plm_table(L+1, L+1, [lat])[:, :, 0])
    if kind == 'disc':
        Y = c.gt.gen_disc_load(D, lon, lat, area, LMAX=L, MMAX=M, UNITS=U, LOVE=(h, k, l), **kw)
    else:
        Y = c.gt.gen_spherical_cap(D, lon, lat, LMAX=L, MMAX=M, UNITS=U, LOVE=(h, k, l), **kw)
    P = plm_table(L, Mx, [lat])[:, :, 0]
    C, S = c.zeros((L+1, Mx+1)), c.zeros((L+1, Mx+1))
    for d in range(L+1):
        q = cap(d, x)
        for m in range(min(d, Mx)+1):
            C[d, m] = f[d]*q*scale*D*P[d, m]*c.np.cos(m*(lon*np.pi/180.0))
            S[d, m] = f[d]*q*scale*D*P[d, m]*c.np.sin(m*(lon*np.pi/180.0))
    c.close(Y.clm/sc, C/sc, 1e-6, 'cosine')
    c.close(Y.slm/sc, S/sc, 1e-6, 'sine')
    c.same((int(Y.lmax), int(Y.mmax)), (L, Mx), 'degree and order')

@harness('C12', configs=[dict(kind=k) for k in ('disc', 'cap', 'point')])
def load_anywhere(c, kind):
    """any position of the load (degree 3)"""
    L = 3
    lon, D, lat = 77.0, 2.5, c.real('lat', -60, 60)
    U = [1.0, 0.5, -0.25, 2.0]
    if kind == 'disc':
        Y = c.gt.gen_disc_load(D, lon, lat, 5e5, LMAX=L, UNITS=U)
        q = [cap(d, 1.0 - 5e15/(2*np.pi*RAD**2)) for d in range(L+1)]
    elif kind == 'cap':
        Y = c.gt.gen_spherical_cap(D, lon, lat, LMAX=L, UNITS=U, RAD_CAP=3.0)
        q = [cap(d, np.cos(np.radians(3.0))) for d in range(L+1)]
    else:
        Y = c.gt.gen_point_load(c.arr([D, 2*D]), c.arr([lon, lon]), c.array([lat, lat]), LMAX=L, UNITS=U)
        q = [3.0]*(L+1)
    # the routines use this expression of the colatitude
    th = np.pi*(90.0 - lat)/180.0 if kind == 'point' else (90.0 - lat)*np.pi/180.0
    x = c.np.cos(th)
    u = c.np.sqrt(1.0 - x**2)
    C, S = c.zeros((L+1, L+1)), c.zeros((L+1, L+1))
    for d in range(L+1):
        for m in range(d+1):
            p = U[d]*q[d]*D*plm(d, m, x, u)
            C[d, m], S[d, m] = p*np.cos(m*(lon*np.pi/180.0)), p*np.sin(m*(lon*np.pi/180.0))
    c.close(Y.clm, C, 1e-6, 'cosine')
    c.close(Y.slm, S, 1e-6, 'sine')

@harness('C12', configs=[dict(which=w) for w in ('point', 'disc', 'cap', 'size')])
def invalid_arguments(c, which):
    D = c.real('D', -1, 1)
    love = (c.zeros(3),)*3
    try:
        if which == 'point':
            c.gt.gen_point_load(c.array([D, D]), c.arr([1.0, 2.0]), c.arr([1.0, 2.0]), LMAX=2, UNITS=3, LOVE=love)
        elif which == 'disc':
            c.gt.gen_disc_load(D, 1.0, 2.0, 100.0, LMAX=2, UNITS=4, LOVE=love)
        elif which == 'cap':
            c.gt.gen_spherical_cap(D, 1.0, 2.0, LMAX=2, UNITS=0, RAD_CAP=1.0, LOVE=love)
        else:
            c.gt.gen_spherical_cap(D, 1.0, 2.0, LMAX=2, UNITS=1, LOVE=love)
    except ValueError:
        c.true(True, 'rejected')
        return
    c.same(which, None, 'accepted')

@harness('C12', configs=[dict(kind=k, L=L, M=M, units=u) for k, L, M, u in (('point', 60, None, 2), ('point', 45, 20, 1), ('disc', 60, None, 2), ('disc', 45, 30, 1), ('cap', 60, None, 3), ('cap', 40, 25, 2), ('area', 90, 40, 2), ('km', 60, None, 1))],
    thorough=[dict(kind=k, L=96, M=m, units=2) for k in ('point', 'disc', 'cap', 'area', 'km') for m in (None, 60)])
def realistic(c, kind, L, M, units):
    """degrees of monthly solutions"""
    Mx = L if M is None else M
    k = np.array([-0.3/(l + 1)**0.8 for l in range(L+1)])
    LV = (c.zeros(L+1), c.arr(k), c.zeros(L+1))
    D = c.reals('D', 2, -10, 10)
    lat, lon = [52.25, -8.0], [301.5, -40.0]
    P = legendre_table(L, Mx, lat)
    deg = np.arange(L+1)
    trig = lambda n, i: (float(np.cos(n*np.radians(lon[i]))), float(np.sin(n*np.radians(lon[i]))))
    C, S = c.zeros((L+1, Mx+1)), c.zeros((L+1, Mx+1))
    if kind == 'point':
        Y = c.gt.gen_point_load(D, c.arr(lon), c.arr(lat), LMAX=L, MMAX=M, UNITS=units, LOVE=LV)
        f = 3*(1 + k)/(2*deg + 1)/(4*np.pi*RAD**3*RHO)*(1e15 if units == 2 else 1.0)
        loads = [(D[0], 0), (D[1], 1)]
    else:
        area = 3.1e5 if kind == 'disc' else None
        alpha = {'disc': 0.0, 'cap': np.radians(2.5), 'area': np.sqrt(4e15/np.pi)/RAD, 'km': 1e5*330.0/RAD}[kind]
        x = np.longdouble(1.0 - 1e10*area/(2*np.pi*RAD**2) if area else np.cos(alpha))
        cm2 = 1e10*area if area else np.pi*(alpha*RAD)**2
        if kind == 'disc':
            Y = c.gt.gen_disc_load(D[0], lon[0], lat[0], area, LMAX=L, MMAX=M, UNITS=units, LOVE=LV)
        else:
            Y = c.gt.gen_spherical_cap(D[0], lon[0], lat[0], LMAX=L, MMAX=M, UNITS=units, LOVE=LV, **{'cap': dict(RAD_CAP=2.5), 'area': dict(AREA=4e15), 'km': dict(RAD_KM=330.0)}[kind])
        p = [np.longdouble(1.0), x]
        for l in range(1, L+1):
            p.append(((2*l + 1)*x*p[l] - l*p[l-1])/(l + 1))
        q = np.array([float((1 - x)/2)] + [float((p[l-1] - p[l+1])/2) for l in range(1, L+1)])
        f = 3*(1 + k)/(2*deg + 1)**2/(RAD*RHO)*q*{1: 1.0, 2: 1e15/cm2, 3: 0.1}[units]
        loads = [(D[0], 0)]
    sc = float(np.abs(f).max())
    for v, i in loads:
        for m in range(Mx+1):
            a, b = trig(m, i)
            for l in range(m, L+1):
                w = float(f[l]*P[l, m, i])/sc
                C[l, m], S[l, m] = C[l, m] + (w*a)*v, S[l, m] + (w*b)*v
    c.same(tuple(Y.clm.shape), (L+1, Mx+1), 'shape')
    c.close(Y.clm/sc, C, 1e-7, 'cosine')
    c.close(Y.slm/sc, S, 1e-7, 'sine')

doc('C12', 'all data in [-10,10], longitudes in [-180,360], Love numbers in [-0.3,0.3] or custom factors in [-5,5]; up to 4 points; disc areas 1e4-2e6 km^2, caps of 0.5-40 degrees, 15-1200 km and 5e14-4e16 cm^2; degrees to 5 (thorough 8) with orders truncated or not; any latitude in [-60,60] to degree 3; degrees 40-90 (thorough 96) at listed places')
