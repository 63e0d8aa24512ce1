"""C08 fully-normalised associated Legendre functions"""
from math import factorial, sqrt
import numpy as np
from symx.harness import harness, doc

def poly(l, m):
    """coefficients (ascending) of d^m/dx^m P_l(x)"""
    p0, p1 = np.polynomial.Polynomial([1.0]), np.polynomial.Polynomial([0.0, 1.0])
    if l == 0:
        p = p0
    else:
        for k in range(2, l+1):
            p0, p1 = p1, ((2*k-1)*np.polynomial.Polynomial([0, 1])*p1 - (k-1)*p0)/k
        p = p1
    return p.deriv(m).coef if m else p.coef

def norm(l, m):
    return sqrt((1 if m == 0 else 2)*(2*l+1)*factorial(l-m)/factorial(l+m))

def plm(l, m, x, u):
    s = 0*x
    for k, q in enumerate(poly(l, m)):
        s = s + float(q)*x**k
    return norm(l, m)*s*u**m

def dplm(l, m, x, u):
    """derivative with respect to colatitude"""
    s = 0*x
    if m < l:
        for k, q in enumerate(poly(l, m+1)):
            s = s - float(q)*x**k*u**(m+1)
    if m > 0:
        for k, q in enumerate(poly(l, m)):
            s = s + m*float(q)*x**(k+1)*u**(m-1)
    return norm(l, m)*s

# latitude as x = cos(colatitude), with sin(colatitude) > 0
def points(c, n):
    x, u = [], []
    for i in range(n):
        xi = c.real(f'x{i}', -0.9, 0.9)
        x.append(xi)
        u.append(c.np.sqrt(1.0 - xi**2))
    return x, u

CF = [dict(method=me, L=L, M=M, n=1) for me in ('holmes', 'colombo', 'mohlenkamp') for L, M in
    ((0, None), (1, None), (2, None), (3, 0), (3, 1), (4, 2), (5, None), (6, None), (7, 3), (8, None))]

@harness('C08', configs=CF + [dict(method=me, L=3, M=None, n=3) for me in ('holmes', 'colombo', 'mohlenkamp', None)],
    thorough=[dict(method=me, L=L, M=None, n=1) for me in ('holmes', 'colombo', 'mohlenkamp') for L in (10, 12)])
def values(c, method, L, M, n):
    x, u = points(c, n)
    kw = {} if M is None else dict(MMAX=M)
    if method is not None:
        f = getattr(c.gt, 'plm_' + method)
        P, D = f(L, x if n > 1 else x[0], **kw)
        P2, D2 = c.gt.associated_legendre(L, x if n > 1 else x[0], method=method, **kw)
    else:
        P, D = P2, D2 = c.gt.associated_legendre(L, x, **kw)
    M = L if M is None else M
    e, d = c.zeros((L+1, M+1, n)), c.zeros((L+1, M+1, n))
    for l in range(L+1):
        for m in range(min(l, M)+1):
            for i in range(n):
                e[l, m, i] = plm(l, m, x[i], u[i])
                d[l, m, i] = dplm(l, m, x[i], u[i])
    c.close(P, e, 1e-7, 'functions')
    c.close(P2, e, 1e-7, 'functions by name')
    c.close(D, d, 1e-6, 'derivatives')
    c.close(D2, d, 1e-6, 'derivatives by name')

@harness('C08', configs=[dict(l=l, n=n, normalize=nz) for l, n in ((0, 1), (1, 1), (2, 2), (3, 1), (5, 1), (8, 1)) for nz in (False, True)],
    thorough=[dict(l=l, n=1, normalize=nz) for l in (9, 10) for nz in (False, True)])
def single_degree(c, l, n, normalize):
    x, u = points(c, n)
    P = c.gt.legendre(l, x if n > 1 else x[0], NORMALIZE=normalize)
    e = c.zeros((l+1, n))
    for m in range(l+1):
        for i in range(n):
            e[m, i] = plm(l, m, x[i], u[i])/(1 if normalize else norm(l, m))*(1 if normalize else (-1)**m)
    s = np.array([[1.0 if normalize else factorial(l+m)/factorial(l-m)] for m in range(l+1)])
    c.close(P/s, e/s, 1e-7, 'functions')

@harness('C08', configs=[dict(L=L, n=n) for L, n in ((0, 2), (1, 1), (2, 3), (4, 2), (8, 1))], thorough=[dict(L=L, n=1) for L in (12, 20)])
def zonal(c, L, n):
    x, u = points(c, n)
    p, d = c.gt.legendre_polynomials(L, x if n > 1 else x[0])
    e, f = c.zeros((L+1, n)), c.zeros((L+1, n))
    for l in range(L+1):
        for i in range(n):
            e[l, i] = plm(l, 0, x[i], u[i])
            f[l, i] = dplm(l, 0, x[i], u[i])
    c.close(p, e, 1e-7, 'polynomials')
    c.close(d, f, 1e-6, 'derivatives')

@harness('C08', configs=[dict(method=me, L=L) for me in ('holmes', 'colombo', 'mohlenkamp') for L in (2, 5)])
def poles(c, method, L):
    """poles beside an arbitrary point: limits of the functions"""
    x, u = points(c, 1)
    P, D = getattr(c.gt, 'plm_' + method)(L, [1.0, x[0], -1.0])
    e, d = c.zeros((L+1, L+1, 3)), c.zeros((L+1, L+1, 3))
    for l in range(L+1):
        for m in range(l+1):
            for i, (xx, uu) in enumerate(((1.0, 0.0), (x[0], u[0]), (-1.0, 0.0))):
                e[l, m, i] = plm(l, m, xx, uu)
                d[l, m, i] = dplm(l, m, xx, uu)
    c.close(P, e, 1e-6, 'functions')
    c.close(D[:, 1:], d[:, 1:], 1e-5, 'derivatives')

@harness('C08', configs=[dict(method=me, L=L, M=M) for me, L, M in (('holmes', 60, None), ('holmes', 90, 40), ('colombo', 60, None), ('colombo', 45, 30), ('mohlenkamp', 60, None), ('mohlenkamp', 40, 20), (None, 50, None), ('degree', 60, None), ('degree', 33, None), ('zonal', 100, None))],
    thorough=[dict(method=me, L=L, M=M) for me in ('holmes', 'colombo', 'mohlenkamp') for L, M in ((80, None), (100, 60))])
def realistic(c, method, L, M):
    """degrees of monthly solutions: sums of any coefficients times the functions at listed latitudes"""
    from props.oracles import legendre_table
    lat = np.array([88.0, 45.5, 0.0, -17.25, -66.0])
    x, u = np.sin(np.radians(lat)), np.cos(np.radians(lat))
    Mx = L if M is None else M
    E = legendre_table(L, min(Mx, 0 if method == 'zonal' else Mx), lat)
    # derivatives with respect to colatitude
    F = np.zeros(E.shape)
    for l in range(L+1):
        for m in range(min(l, E.shape[1] - 1)+1):
            g = np.sqrt((l*l - m*m)*(2.0*l + 1.0)/(2.0*l - 1.0))*E[l-1, m] if l > m else 0.0
            F[l, m] = (l*x*E[l, m] - g)/u
    a = c.reals('a', 4, -1, 1)
    X = c.arr(x)
    if method == 'degree':
        for nz in (True, False):
            P = c.gt.legendre(L, X, NORMALIZE=nz)
            s = [1.0 if nz else 1.0/((-1)**m*norm(L, m)) for m in range(L+1)]
            for i in range(len(lat)):
                for m in range(0, L+1, 1):
                    c.close(a[m % 4]*(float(P[m, i])/s[m]), a[m % 4]*float(E[L, m, i]), 1e-8, f'order {m}')
        return
    if method == 'zonal':
        P, D = c.gt.legendre_polynomials(L, X)
        P, D = P[:, None], D[:, None]
    else:
        P, D = c.gt.associated_legendre(L, X, **({} if M is None else dict(MMAX=M)), **({} if method is None else dict(method=method)))
    c.same(tuple(P.shape), tuple(E.shape), 'shape')
    for i in range(len(lat)):
        for m in range(E.shape[1]):
            for Q, R, sc, n in ((P, E, 1.0, 'functions'), (D, F, 1e-2, 'derivatives')):
                v = w = 0.0
                for l in range(m, L+1):
                    k = 1.0 - 0.5*(l % 3)
                    v, w = v + a[l % 4]*(sc*k*float(Q[l, m, i])), w + a[l % 4]*(sc*k*float(R[l, m, i]))
                c.close(v, w, 1e-8, n + f' of order {m}')

doc('C08', 'any cos(colatitude) in [-0.9,0.9] (1-3 points) and both poles, degrees to 8 (thorough 12, zonal 20), orders truncated or not; degrees 33-100 (thorough 100) as sums with any weights at five listed latitudes')
