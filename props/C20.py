"""C20 gradients of fields"""
import numpy as np
from symx.harness import harness, doc
from props.oracles import *
from props.C12 import RAD, RHO

LM = [dict(L=L, M=M) for L, M in ((1, 1), (2, 2), (3, 3), (4, 4), (4, 2), (5, 5), (6, 6), (5, 0), (0, 0))]

def angle(c):
    t = c.real('colatitude', 0.02, 3.12)
    return t, c.np.cos(t), c.np.sin(t)

@harness('C20', configs=LM, thorough=[dict(L=8, M=8), dict(L=9, M=9)], mix=12)
def fourier_series(c, L, M):
    """the series in multiples of the colatitude are the Legendre functions"""
    t, x, u = angle(c)
    p = c.gt.fourier_legendre(L, M)
    R = c.zeros((L+1, L+1))
    for l in range(L+1):
        for m in range(M+1):
            f = c.np.cos if m % 2 == 0 else c.np.sin
            s = 0.0
            for k in range(L+1):
                s = s + p[l, m, k]*f(k*t)
            R[l, m] = s - (plm(l, m, x, u) if m <= l else 0.0)
    c.close(R, c.zeros(R.shape), 1e-7, 'Legendre functions')

@harness('C20', configs=[d for d in LM if d['L'] > 0], thorough=[dict(L=8, M=8)], mix=12)
def gradient_series(c, L, M):
    """series of the derivatives along the meridian and the parallel"""
    t, x, u = angle(c)
    v, w = c.gt.fourier_legendre.legendre_gradient(L, M) if hasattr(c.gt.fourier_legendre, 'legendre_gradient') else c.gt.legendre_gradient(L, M)
    V, W = c.zeros((L+1, L+1)), c.zeros((L+1, L+1))
    for l in range(L+1):
        for m in range(M+1):
            f = c.np.sin if m % 2 == 0 else c.np.cos
            s = r = 0.0
            for k in range(L+1):
                s = s + v[l, m, k]*f(k*t)
                r = r + w[l, m, k]*f(k*t)
            if l and m <= l:
                n = np.sqrt(l*(l+1.0))
                s = s + dplm(l, m, x, u)/n
                r = r*u - m*plm(l, m, x, u)/n
            V[l, m], W[l, m] = s, r
    c.close(V, c.zeros(V.shape), 1e-7, 'along the meridian')
    c.close(W, c.zeros(W.shape), 1e-7, 'along the parallel')

GR = [dict(L=L, M=M, LMIN=mi, nlat=n, over=o, anylat=a) for L, M, mi, n, o, a in ((1, None, 0, 2, 0, False), (2, None, 0, 3, 0, False), (3, None, 0, 2, 0, True), (4, None, 1, 2, 2, False), (4, 2, 0, 3, 0, False),
    (5, None, 2, 2, 1, False), (5, 3, 3, 2, 1, False), (3, 0, 0, 2, 0, False), (6, None, 0, 2, 0, False), (2, None, 2, 2, 0, True), (2, 1, 0, 2, 1, True))]

@harness('C20', configs=GR, thorough=[dict(L=8, M=M, LMIN=mi, nlat=3, over=0, anylat=False) for M, mi in ((None, 0), (5, 2))] + [dict(L=4, M=None, LMIN=0, nlat=2, over=0, anylat=True)], mix=12)
def gradients(c, L, M, LMIN, nlat, over, anylat):
    Mx = L if M is None else M
    C, S = c.reals('C', (L+over+1, Mx+over+1), -10, 10), c.reals('S', (L+over+1, Mx+over+1), -10, 10)
    lo = [c.real(f'lon{i}', -180, 360) for i in range(2)]
    la = [c.real(f'lat{i}', -85, 85) for i in range(nlat)] if anylat else LAT[nlat]
    snaps = [C.copy(), S.copy()]
    G = c.gt.harmonic_gradients(C, S, c.array(lo), c.array(la) if anylat else c.arr(la), LMIN=LMIN, LMAX=L, MMAX=M)
    E, N = c.zeros((2, nlat)), c.zeros((2, nlat))
    Eo, No = c.zeros((2, nlat)), c.zeros((2, nlat))
    for j in range(nlat):
        t = (90.0 - la[j])*np.pi/180.0
        x, u = c.np.cos(t), c.np.sin(t)
        for i in range(2):
            e = n = 0.0
            for l in range(LMIN, L+1):
                for m in range(min(l, Mx)+1):
                    a = m*(lo[i]*np.pi/180.0)
                    cm, sm = (c.np.cos(a), c.np.sin(a)) if m else (1.0, 0.0)
                    e = e + m*plm(l, m, x, u)*(S[l, m]*cm - C[l, m]*sm)
                    n = n - dplm(l, m, x, u)*(C[l, m]*cm + S[l, m]*sm)
            E[i, j], N[i, j] = e, n
            Eo[i, j], No[i, j] = G[i, j, 0]*u, G[i, j, 1]
    c.close(Eo, E, 1e-6, 'eastward')
    c.close(No, N, 1e-6, 'northward')
    c.same(tuple(G.shape), (2, nlat, 2), 'size')
    for y, s in zip((C, S), snaps):
        c.close(y, s, 0, 'input')

GC = [dict(L=L, M=M, LMIN=mi, nlat=n, RAD=r, plm=p, density=d) for L, M, mi, n, r, p, d in ((2, None, 0, 2, 0, False, None), (3, None, 0, 2, 500, False, None), (4, None, 1, 3, 0, True, None), (4, 2, 0, 2, 250, False, None),
    (3, None, 2, 2, 0, False, 1.02), (4, 3, 3, 2, 300, True, None), (3, 0, 0, 2, 0, False, None), (5, None, 0, 2, 0, False, None))]
DRY = {2: [23.0, -67.0], 3: [60.0, 20.0, -45.0]}

@harness('C20', configs=GC, thorough=[dict(L=6, M=None, LMIN=2, nlat=3, RAD=250, plm=False, density=None)], mix=6)
def currents(c, L, M, LMIN, nlat, RAD, plm, density):
    Mx = L if M is None else M
    C, S = c.reals('C', (L+1, Mx+1), -10, 10), c.reals('S', (L+1, Mx+1), -10, 10)
    lo = [c.real(f'lon{i}', -180, 360) for i in range(2)]
    la = DRY[nlat]
    k = c.reals('k', L+1, -0.3, 0.3)
    love = c.gt.love_numbers(lmax=L)
    love.hl, love.kl, love.ll = c.zeros(L+1), k, c.zeros(L+1)
    kw = dict(PLM=c.arr(plm_table(L, L, la))) if plm else {}
    if density:
        kw['DENSITY'] = density
    G = c.gt.geostrophic_currents(C, S, c.array(lo), c.arr(la), LMIN=LMIN, LMAX=L, MMAX=M, RAD=RAD, LOVE=love, **kw)
    f = 980.665*EARTH_RHO/(6.0*7292115e-11*(density or 1.035))
    w = 2*np.pi*gauss_quadrature(RAD, L)
    P = plm_table(L, Mx, la)
    for d, name in enumerate(('zonal', 'meridional')):
        A, B = c.zeros((L+1, Mx+1)), c.zeros((L+1, Mx+1))
        for l in range(LMIN, L+1):
            for m in range(min(l, Mx)+1):
                if d == 0:
                    if not 0 < l < L:
                        continue
                    # degree below has no coefficient of order l
                    for X, Y in ((A, C), (B, S)):
                        a = 0.0 if m > l-1 else (l-1.0)/(1.0+k[l-1])*np.sqrt((l*l-m*m)*(2*l-1.0)/(2*l+1))*Y[l-1, m]
                        b = (l+2.0)/(1.0+k[l+1])*np.sqrt(((l+1)**2-m*m)*(2*l+3.0)/(2*l+1))*Y[l+1, m]
                        X[l, m] = w[l]*(a - b)
                else:
                    A[l, m] = -w[l]*m*(2*l+1.0)/(1.0+k[l])*S[l, m]
                    B[l, m] = w[l]*m*(2*l+1.0)/(1.0+k[l])*C[l, m]
        F = field(c, A, B, lo, P, 0, L, Mx)
        out = c.zeros(F.shape)
        for i, j in np.ndindex(*F.shape):
            t = np.radians(90.0 - la[j])
            out[i, j] = G[i, j, d]*(np.cos(t)*np.sin(t)/f)
        c.close(out, F, 1e-6, name)
EARTH_RHO = RHO

@harness('C20', configs=[dict(which=w, L=L, M=M, LMIN=mi) for w, L, M, mi in (('series', 40, 40, 0), ('series', 31, 20, 0), ('gradients', 40, None, 0), ('gradients', 30, 18, 2), ('currents', 60, None, 0), ('currents', 40, 25, 1))],
    thorough=[dict(which=w, L=60, M=m, LMIN=0) for w, m in (('series', 60), ('gradients', None), ('gradients', 40), ('currents', 40))])
def realistic(c, which, L, M, LMIN):
    """degrees of monthly solutions at listed points: listed coefficients times free factors"""
    Mx = L if M is None else M
    la, lo = ([61.5, -38.0, 12.25], [23.5, 301.25])
    th = np.radians(90.0 - np.array(la))
    x, u = np.cos(th), np.sin(th)
    P = legendre_table(L+1, L+1, la)
    F = np.zeros((L+1, Mx+1, 3))
    for l in range(1, L+1):
        for m in range(min(l, Mx)+1):
            g = np.sqrt((l*l - m*m)*(2.0*l + 1.0)/(2.0*l - 1.0))*P[l-1, m] if l > m else 0.0
            F[l, m] = (l*x*P[l, m] - g)/u
    if which == 'series':
        a = c.reals('a', 4, -1, 1)
        p = np.asarray(c.gt.fourier_legendre(L, Mx), dtype=float)
        v, w = (np.asarray(y, dtype=float) for y in (c.gt.fourier_legendre.legendre_gradient(L, Mx) if hasattr(c.gt.fourier_legendre, 'legendre_gradient') else c.gt.legendre_gradient(L, Mx)))
        for j in range(3):
            for m in range(Mx+1):
                k = np.arange(L+1)
                f, g = (np.cos(k*th[j]), np.sin(k*th[j])) if m % 2 == 0 else (np.sin(k*th[j]), np.cos(k*th[j]))
                r = [0.0]*6
                for l in range(m, L+1):
                    n = np.sqrt(l*(l+1.0)) if l else 1.0
                    q = a[l % 4]*(1.0 - 0.5*(l % 3))
                    for i, y in enumerate((p[l, m] @ f, P[l, m, j], v[l, m] @ g, -F[l, m, j]/n, w[l, m] @ g, m*P[l, m, j]/n/u[j])):
                        if l or i < 2:
                            r[i] = r[i] + q*float(y)
                c.close(r[0], r[1], 1e-7, f'functions of order {m}')
                c.close(r[2], r[3], 1e-6, f'along the meridian, order {m}')
                c.close(r[4], r[5], 1e-6, f'along the parallel, order {m}')
        return
    C, S = pattern(c, 'v', L, Mx)
    if which == 'gradients':
        G = c.gt.harmonic_gradients(C, S, c.arr(lo), c.arr(la), LMIN=LMIN, LMAX=L, MMAX=M)
    else:
        k = np.array([-0.3/(l + 1)**0.8 for l in range(L+1)])
        love = c.gt.love_numbers(lmax=L)
        love.hl, love.kl, love.ll = c.zeros(L+1), c.arr(k), c.zeros(L+1)
        G = c.gt.geostrophic_currents(C, S, c.arr(lo), c.arr(la), LMIN=LMIN, LMAX=L, MMAX=M, RAD=300, LOVE=love)
        wt = 2*np.pi*np.maximum(gauss_quadrature(300, L), 1e-10)
        f = 980.665*EARTH_RHO/(6.0*7292115e-11*1.035)
    for i in range(2):
        for j in range(3):
            e = n = 0.0
            for m in range(Mx+1):
                a, b = float(np.cos(m*np.radians(lo[i]))), float(np.sin(m*np.radians(lo[i])))
                for l in range(max(m, LMIN), L+1):
                    if which == 'gradients':
                        p, d = m*float(P[l, m, j]), float(F[l, m, j])
                        e = e + (p*a)*S[l, m] - (p*b)*C[l, m]
                        n = n - (d*a)*C[l, m] - (d*b)*S[l, m]
                        continue
                    t = float(wt[l]*P[l, m, j])
                    # current along the parallel from the degrees above and below
                    if 0 < l < L:
                        y = (l+2.0)/(1.0+k[l+1])*np.sqrt(((l+1)**2-m*m)*(2*l+3.0)/(2*l+1))*t
                        e = e - float(y*a)*C[l+1, m] - float(y*b)*S[l+1, m]
                        if m < l:
                            y = (l-1.0)/(1.0+k[l-1])*np.sqrt((l*l-m*m)*(2*l-1.0)/(2*l+1))*t
                            e = e + float(y*a)*C[l-1, m] + float(y*b)*S[l-1, m]
                    y = m*(2*l+1.0)/(1.0+k[l])*t
                    n = n + float(y*b)*C[l, m] - float(y*a)*S[l, m]
            sc = 1e-3
            if which == 'gradients':
                c.close(G[i, j, 0]*(u[j]*sc), e*sc, 1e-6, 'eastward')
                c.close(G[i, j, 1]*sc, n*sc, 1e-6, 'northward')
            else:
                c.close(G[i, j, 0]*float(np.cos(th[j])*np.sin(th[j])/f*sc), e*sc, 1e-6, 'zonal')
                c.close(G[i, j, 1]*float(np.cos(th[j])*np.sin(th[j])/f*sc), n*sc, 1e-6, 'meridional')

doc('C20', 'every colatitude, degrees to 6 (thorough 9) for the series; all coefficients in [-10,10] and longitudes in [-180,360], listed latitudes and to degree 3 (4) any latitude in +-85 for gradients; load Love numbers in [-0.3,0.3], degrees to 5 (6) for currents; degrees 30-60 at listed points with any weights or factors')
