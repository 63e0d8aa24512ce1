"""independent formulas used as oracles"""
from math import factorial, sqrt
import numpy as np
from props.C08 import plm, dplm

LAT = {1: [23.0], 2: [-41.5, 67.0], 3: [88.0, 0.0, -55.25], 4: [60.0, 20.0, -20.0, -60.0]}

def plm_table(L, M, lats):
    """P_lm at concrete latitudes in degrees, [l, m, lat]"""
    out = np.zeros((L+1, M+1, len(lats)))
    for i, la in enumerate(lats):
        x, u = np.sin(np.radians(la)), np.cos(np.radians(la))
        for l in range(L+1):
            for m in range(min(l, M)+1):
                out[l, m, i] = plm(l, m, x, u)
    return out

def gauss_quadrature(hw, L):
    """Legendre transform of the normalised Gaussian cap average, times 1/(2 pi)"""
    if hw == 0:
        return np.full(L+1, 1/(2*np.pi))
    b = np.log(2)/(1 - np.cos(hw/6371.0))
    # integrate over y = 1 - x with weight exp(-b y)
    t, w = np.polynomial.legendre.leggauss(400)
    top = min(2.0, 60.0/b)
    y = (t + 1)/2*top
    g = np.exp(-b*y)*w
    P = np.polynomial.legendre.legvander(1 - y, L)
    I = (g[:, None]*P).sum(0)
    return I/I[0]/(2*np.pi)

def field(c, clm, slm, lons, P, LMIN, LMAX, MMAX, weight=None, pointwise=False):
    """sum over degrees and orders at longitudes (degrees) and tabulated P"""
    n = P.shape[2]
    cm = [[(1.0, 0.0) if m == 0 else (c.np.cos(m*(lo*np.pi/180.0)), c.np.sin(m*(lo*np.pi/180.0))) for m in range(MMAX+1)] for lo in lons]
    out = c.zeros(n if pointwise else (len(lons), n))
    for i in range(len(lons)):
        for k in ([i] if pointwise else range(n)):
            s = 0.0
            for l in range(LMIN, LMAX+1):
                w = 1.0 if weight is None else weight[l]
                for m in range(min(l, MMAX)+1):
                    s = s + w*P[l, m, k]*(clm[l, m]*cm[i][m][0] + slm[l, m]*cm[i][m][1])
            if pointwise:
                out[i] = s
            else:
                out[i, k] = s
    return out

def fourier_table(L):
    """Fourier coefficients in colatitude (cosine for even, sine for odd orders)"""
    n = 4*L + 9
    th = (np.arange(n) + 0.5)*np.pi/n
    P = np.zeros((L+1, L+1, n))
    for i, t in enumerate(th):
        for l in range(L+1):
            for m in range(l+1):
                P[l, m, i] = plm(l, m, np.cos(t), np.sin(t))
    out = np.zeros((L+1, L+1, L+1))
    for k in range(L+1):
        for m in range(L+1):
            b = np.cos(k*th) if m % 2 == 0 else np.sin(k*th)
            out[:, m, k] = (P[:, m]*b).sum(-1)*(1.0 if k == 0 else 2.0)/n
    return out

def legendre_table(L, M, lats):
    """P_lm at concrete latitudes for degrees to 100, [l, m, lat]: sectoral terms from their closed form, then degree by degree"""
    th = np.radians(90.0 - np.asarray(lats, dtype=float))
    x, u = np.cos(th).astype(np.longdouble), np.sin(th).astype(np.longdouble)
    out = np.zeros((L+1, M+1, len(th)), dtype=np.longdouble)
    for m in range(M+1):
        p = np.ones(len(th), dtype=np.longdouble)*np.longdouble(sqrt(2.0) if m else 1.0)
        for k in range(1, m+1):
            p = p*u*np.sqrt(np.longdouble(2*k + 1)/(2*k))
        prev = np.zeros(len(th), dtype=np.longdouble)
        for l in range(m, L+1):
            out[l, m] = p
            a = np.sqrt(np.longdouble((2*l + 1)*(2*l + 3))/((l + 1 - m)*(l + 1 + m)))
            b = np.sqrt(np.longdouble((2*l + 3)*(l + m)*(l - m))/((2*l - 1)*(l + 1 - m)*(l + 1 + m))) if l > m else 0
            prev, p = p, a*x*p - b*prev
    return out.astype(float)

def pattern(c, name, L, M, terms=3, seed=1, lo=-10, hi=10):
    """coefficients of a large degree: each one a listed number times one of a few free factors"""
    rng = np.random.default_rng(seed)
    s = [c.real(f'{name}{i}', lo, hi) for i in range(terms)]
    C, S = c.zeros((L+1, M+1)), c.zeros((L+1, M+1))
    for l in range(L+1):
        for m in range(min(l, M)+1):
            a, b = np.round(rng.uniform(0.2, 1, 2)*rng.choice([-1, 1], 2), 4)
            C[l, m] = float(a)*s[(l + 2*m) % terms]
            if m:
                S[l, m] = float(b)*s[(l + m + 1) % terms]
    return C, S
