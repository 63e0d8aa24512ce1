"""C11 analysis of spatial fields into harmonics"""
import numpy as np
from symx.harness import harness, doc
from props.oracles import *

def grid(c, nlon, nlat, wrap, north):
    dlon, dlat = 360.0/nlon, 180.0/nlat
    lo0 = c.real('lon0', -180 if wrap else 0, 0 if wrap else 20)
    lon = [lo0 + i*dlon for i in range(nlon)]
    la = [90 - dlat/2 - i*dlat for i in range(nlat)]
    return lon, (la if north else la[::-1]), np.radians(dlon), np.radians(dlat)

def quadrature(c, D, lon, lat, w, L, M, LMIN, f):
    """sum of data times surface harmonics times area"""
    P = plm_table(L, M, lat)
    C, S = c.zeros((L+1, M+1)), c.zeros((L+1, M+1))
    for m in range(M+1):
        cm = [c.np.cos(m*(lo*np.pi/180.0)) for lo in lon]
        sm = [c.np.sin(m*(lo*np.pi/180.0)) for lo in lon]
        for l in range(max(m, LMIN), L+1):
            a = b = 0.0
            for i in range(len(lon)):
                for j in range(len(lat)):
                    a = a + D[i, j]*(P[l, m, j]*w[j])*cm[i]
                    b = b + D[i, j]*(P[l, m, j]*w[j])*sm[i]
            C[l, m], S[l, m] = f[l]*a, f[l]*b
    return C, S

CF = [dict(L=L, M=M, LMIN=mi, nlon=nl, nlat=nt, wrap=w, north=no, latlon=ll, units=u, plm=p) for i, (L, M, mi, nl, nt, w, no, ll, u, p) in enumerate((
    (1, None, 0, 4, 3, False, True, False, 1, False), (2, None, 0, 3, 4, True, True, True, 1, False), (3, 2, 1, 4, 3, True, False, False, 2, False),
    (3, None, 2, 5, 2, False, True, True, 3, True), (2, 0, 0, 2, 3, False, True, False, 'custom', False), (4, 3, 0, 6, 4, True, False, True, 'custom', True),
    (3, 1, 3, 4, 2, False, False, False, 2, True), (2, None, 1, 6, 3, True, True, False, 3, False), (0, None, 0, 4, 3, False, True, False, 1, False)))]

@harness('C11', configs=CF, thorough=[dict(L=6, M=4, LMIN=2, nlon=8, nlat=6, wrap=True, north=True, latlon=True, units=u, plm=False) for u in (1, 2, 3, 'custom')], mix=16, ok=lambda nlon, nlat, **k: nlon != nlat)
def stokes(c, L, M, LMIN, nlon, nlat, wrap, north, latlon, units, plm):
    lon, lat, dphi, dth = grid(c, nlon, nlat, wrap, north)
    D = c.reals('D', (nlon, nlat), -100, 100)
    Mx = L if M is None else M
    G, GM = 6.67430e-8, 3986004.418e14 - 3.5e14
    rad = 6.378137e8*(1.0 - 1.0/298.257223563)**(1.0/3.0)
    rho = 0.75*GM/(G*np.pi*rad**3)
    h, k, l = (c.reals(x, L+1, -0.3, 0.3) for x in 'hkl')
    area = np.cos(np.radians(lat))*dphi*dth
    fac = c.array([3*(1 + k[i])/(2*i+1)/(4*np.pi*rad*rho) for i in range(L+1)])
    if units == 'custom':
        U = f = c.reals('unit', L+1, -5, 5)
        sc = 1.0
    else:
        U, sc = units, 1e-11
        f = {1: fac, 2: fac*(1e15/rad**2), 3: fac/10}[units]
        if units == 2:
            area = np.ones(nlat)
    kw = dict(PLM=c.arr(plm_table(L, L, lat))) if plm else {}
    loi, lai, Di = c.array(lon), c.arr(lat), (D.T.copy() if latlon else D.copy())
    Y = c.gt.gen_stokes(Di, loi, lai, LMIN=LMIN, LMAX=L, MMAX=M, UNITS=U, LOVE=(h, k, l), **kw)
    C, S = quadrature(c, D, lon, lat, area, L, Mx, LMIN, f)
    c.close(Y.clm/sc, C/sc, 1e-6, 'cosine')
    c.close(Y.slm/sc, S/sc, 1e-6, 'sine')
    c.same((int(Y.lmax), int(Y.mmax)), (L, Mx), 'degree and order')
    c.close(loi, c.array(lon), 0, 'longitudes not modified')
    c.close(lai, c.arr(lat), 0, 'latitudes not modified')
    c.close(Di, D.T if latlon else D, 0, 'data not modified')

@harness('C11', configs=[{k: v for k, v in d.items() if k not in ('LMIN', 'units')} for d in CF], mix=12, ok=lambda nlon, nlat, **k: nlon != nlat)
def integration(c, L, M, nlon, nlat, wrap, north, latlon, plm):
    lon, lat, dphi, dth = grid(c, nlon, nlat, wrap, north)
    D = c.reals('D', (nlon, nlat), -100, 100)
    Mx = L if M is None else M
    kw = dict(PLM=c.arr(plm_table(L, L, lat))) if plm else {}
    loi, lai, Di = c.array(lon), c.arr(lat), (D.T.copy() if latlon else D.copy())
    Y = c.gt.gen_harmonics(Di, loi, lai, LMAX=L, MMAX=M, **kw)
    C, S = quadrature(c, D, lon, lat, np.cos(np.radians(lat))*dphi*dth, L, Mx, 0, [1/(4*np.pi)]*(L+1))
    c.close(Y.clm, C, 1e-7, 'cosine')
    c.close(Y.slm, S, 1e-7, 'sine')
    c.close(loi, c.array(lon), 0, 'longitudes not modified')
    c.close(Di, D.T if latlon else D, 0, 'data not modified')

@harness('C11', configs=[dict(L=L, M=M, nlon=nl, nlat=nt, north=no, poles=p, latlon=q, plm=f) for L, M, nl, nt, no, p, q, f in ((4, None, 10, 12, True, False, False, False), (4, None, 9, 14, False, False, True, True), (6, None, 13, 16, True, False, False, False),
    (4, None, 11, 13, True, True, True, False), (3, None, 8, 10, True, False, False, True), (5, 3, 12, 15, True, False, True, False), (2, None, 6, 9, True, True, False, False), (4, 2, 12, 11, True, True, False, True), (3, 2, 9, 10, False, False, False, False), (3, 0, 9, 8, True, True, False, False), (1, None, 5, 6, True, False, True, False), (0, None, 5, 7, True, True, True, False),
    (4, None, 12, 11, False, True, True, True), (3, 2, 9, 8, False, True, False, False), (5, None, 12, 14, False, True, False, False), (2, 1, 7, 6, False, True, True, False), (4, 3, 11, 12, False, False, True, False))],
    thorough=[dict(L=8, M=None, nlon=17, nlat=20, north=True, poles=False, latlon=False, plm=False), dict(L=7, M=5, nlon=17, nlat=21, north=True, poles=True, latlon=False, plm=False)], mix=24, ok=lambda L, M, nlon, nlat, plm, poles, **k: nlon != nlat and nlon > L + (L if M is None else M) and nlat > L + 1)
def fourier_recovers(c, L, M, nlon, nlat, north, poles, latlon, plm):
    """a band-limited field on a global grid gives its harmonics back"""
    Mx = L if M is None else M
    C, S = c.reals('C', (L+1, L+1), -10, 10), c.reals('S', (L+1, L+1), -10, 10)
    for l in range(L+1):
        S[l, 0] = 0.0
        for m in range(l+1, L+1):
            C[l, m] = S[l, m] = 0.0
    dlon = 360.0/nlon
    lon = [i*dlon for i in range(nlon)]
    if poles:
        lat = [90 - i*180.0/(nlat-1) for i in range(nlat)]
    else:
        lat = [90 - 90.0/nlat - i*180.0/nlat for i in range(nlat)]
    lat = lat if north else lat[::-1]
    D = field(c, C, S, lon, plm_table(L, L, lat), 0, L, L)
    kw = dict(PLM=c.arr(fourier_table(L))) if plm else {}
    Y = c.gt.gen_harmonics(D.T.copy() if latlon else D, c.arr(lon), c.arr(lat), LMAX=L, MMAX=M, METHOD='fourier', **kw)
    c.close(Y.clm, C[:, :Mx+1], 1e-6, 'cosine')
    c.close(Y.slm, S[:, :Mx+1], 1e-6, 'sine')
    c.same((int(Y.lmax), int(Y.mmax)), (L, Mx), 'degree and order')

@harness('C11', configs=[dict(L=1, n=12), dict(L=2, n=18)], thorough=[dict(L=3, n=36)])
def there_and_back(c, L, n):
    """synthesis then analysis returns the harmonics up to the quadrature error"""
    C, S = c.reals('C', (L+1, L+1), -1, 1), c.reals('S', (L+1, L+1), -1, 1)
    for l in range(L+1):
        S[l, 0] = 0.0
        for m in range(l+1, L+1):
            C[l, m] = S[l, m] = 0.0
    d = 180.0/n
    lon, lat = np.arange(0, 360, d), np.arange(90 - d/2, -90, -d)
    h, k, l = (c.arr([0.0, 0.02, -0.3, -0.2][:L+1]) for _ in range(3))
    for u, code in (('cmwe', 1), ('mmwe', 3)):
        D = c.gt.stokes_summation(C, S, c.arr(lon), c.arr(lat), LMAX=L, UNITS=u, LOVE=(h, k, l))
        Y = c.gt.gen_stokes(D, c.arr(lon), c.arr(lat), LMAX=L, UNITS=code, LOVE=(h, k, l))
        c.close(Y.clm, C, 0.06, 'cosine')
        c.close(Y.slm, S, 0.06, 'sine')

@harness('C11', configs=[dict(which=w, L=L, M=M, LMIN=mi, nlon=a, nlat=b, units=u) for w, L, M, mi, a, b, u in (('stokes', 60, None, 2, 24, 9, 1), ('stokes', 40, 25, 0, 30, 6, 2), ('stokes', 30, None, 0, 15, 12, 'custom'), ('integration', 60, None, 0, 20, 8, None), ('integration', 45, 30, 0, 16, 5, None),
    ('fourier', 30, None, 0, 72, 36, None), ('fourier', 24, 15, 0, 60, 30, None))],
    thorough=[dict(which='stokes', L=90, M=None, LMIN=0, nlon=40, nlat=20, units=1), dict(which='integration', L=90, M=60, LMIN=0, nlon=36, nlat=18, units=None), dict(which='fourier', L=45, M=None, LMIN=0, nlon=120, nlat=60, units=None)])
def realistic(c, which, L, M, LMIN, nlon, nlat, units):
    """degrees of monthly solutions: listed fields times free factors"""
    Mx = L if M is None else M
    rng = np.random.default_rng(nlon)
    lon, lat = np.arange(nlon)*360.0/nlon, 90.0 - 180.0/nlat*(0.5 + np.arange(nlat))
    P = legendre_table(L, L, lat)
    k = [-0.3/(l + 1)**0.8 for l in range(L+1)]
    LV = (c.zeros(L+1), c.arr(np.array(k)), c.zeros(L+1))
    if which == 'fourier':
        C, S = pattern(c, 'v', L, L)
        D = c.zeros((nlon, nlat))
        trig = [[(float(np.cos(m*np.radians(x))), float(np.sin(m*np.radians(x)))) for m in range(L+1)] for x in lon]
        for j in range(nlat):
            a, b = [0.0]*(L+1), [0.0]*(L+1)
            for m in range(L+1):
                for l in range(m, L+1):
                    a[m], b[m] = a[m] + float(P[l, m, j])*C[l, m], b[m] + float(P[l, m, j])*S[l, m]
            for i in range(nlon):
                v = 0.0
                for m in range(L+1):
                    v = v + trig[i][m][0]*a[m] + trig[i][m][1]*b[m]
                D[i, j] = v
        Y = c.gt.gen_harmonics(D, c.arr(lon), c.arr(lat), LMAX=L, MMAX=M, METHOD='fourier')
        c.close(Y.clm, C[:, :Mx+1], 1e-6, 'cosine')
        c.close(Y.slm, S[:, :Mx+1], 1e-6, 'sine')
        return
    s = [c.real(f'v{i}', -100, 100) for i in range(3)]
    N = np.round(rng.uniform(-1, 1, (nlon, nlat)), 3)
    D = c.zeros((nlon, nlat))
    for i, j in np.ndindex(nlon, nlat):
        D[i, j] = float(N[i, j])*s[(i + j) % 3]
    area = np.cos(np.radians(lat))*np.radians(360.0/nlon)*np.radians(180.0/nlat)
    G, GM = 6.67430e-8, 3986004.418e14 - 3.5e14
    rad = 6.378137e8*(1.0 - 1.0/298.257223563)**(1.0/3.0)
    rho = 0.75*GM/(G*np.pi*rad**3)
    f = np.array([3*(1 + k[i])/(2*i+1)/(4*np.pi*rad*rho) for i in range(L+1)])
    if which == 'integration':
        f = np.full(L+1, 1/(4*np.pi))
        Y = c.gt.gen_harmonics(D, c.arr(lon), c.arr(lat), LMAX=L, MMAX=M)
    else:
        U = units
        if units == 'custom':
            f = np.round(rng.uniform(-5, 5, L+1), 3)
            U = c.arr(f)
        elif units == 2:
            f, area = f*1e15/rad**2, np.ones(nlat)
        Y = c.gt.gen_stokes(D, c.arr(lon), c.arr(lat), LMIN=LMIN, LMAX=L, MMAX=M, UNITS=U, LOVE=LV)
    c.same(tuple(Y.clm.shape), (L+1, Mx+1), 'shape')
    e, h = c.zeros((L+1, Mx+1)), c.zeros((L+1, Mx+1))
    for q in range(3):
        W = np.where((np.arange(nlon)[:, None] + np.arange(nlat)) % 3 == q, N, 0.0)*area
        for m in range(Mx+1):
            A, B = np.cos(m*np.radians(lon)) @ W, np.sin(m*np.radians(lon)) @ W
            for l in range(max(m, LMIN), L+1):
                e[l, m], h[l, m] = e[l, m] + float(P[l, m] @ A*f[l])*s[q], h[l, m] + float(P[l, m] @ B*f[l])*s[q]
    sc = float(np.abs(f).max())*float(area.max())
    c.close(Y.clm/sc, e/sc, 1e-6, 'cosine')
    c.close(Y.slm/sc, h/sc, 1e-6, 'sine')

doc('C11', 'all fields with values in [-100,100] on global grids of up to 6x4 cells (thorough 8x6) with any longitude origin, degrees to 4 (6), load Love numbers and custom factors symbolic; Fourier method: all band-limited fields of degree 0 to 6 (thorough 8), orders truncated or not, on grids with cell centres or poles; recovery by quadrature on 10-15 degree grids within 6 percent of the coefficient bound; degrees 24-60 (thorough 90) as listed fields times free factors')
