"""C13 algebra of harmonics objects"""
import numpy as np
from symx.harness import harness, doc
from props.hutil import *

DIMS = [dict(A=A, B=B, na=na, nb=nb) for A, B, na, nb in (
    ((2, 2), (2, 2), None, None), ((3, 2), (2, 1), None, None), ((2, 1), (3, 3), None, None), ((3, 3), (4, 2), 2, None),
    ((2, 2), (1, 1), 3, None), ((2, 2), (3, 3), 2, 2), ((3, 1), (2, 2), 2, 2), ((1, 0), (2, 2), None, None), ((0, 0), (1, 1), 1, 1), ((2, 2), (2, 2), 1, None), ((30, 20), (33, 25), None, None), ((1, 1), (1, 1), 40, None), ((16, 16), (20, 10), 2, 2))]

def shared(A, B):
    return min(A[0], B[0]), min(A[1], B[1])

@harness('C13', configs=[dict(op=o, **d) for d in DIMS for o in ('add', 'subtract', 'multiply', 'divide')], thorough=[dict(op=o, A=(6, 4), B=(5, 5), na=3, nb=b) for o in ('add', 'subtract', 'multiply', 'divide') for b in (None, 3)], mix=24, ok=lambda na, nb, **k: (na or 1) == (nb or 1) and (na is None) == (nb is None))
def binary(c, op, A, B, na, nb):
    X = harm(c, 'a', *A, nt=na)
    lo, hi = ((1, 4) if op == 'divide' else (-10, 10))
    Y = harm(c, 'b', *B, nt=nb, lo=lo, hi=hi, start=2)
    x, y, sy = keep(X), keep(Y), snap(c, Y)
    f = dict(add=lambda p, q: p + q, subtract=lambda p, q: p - q, multiply=lambda p, q: p*q, divide=lambda p, q: p/q)[op]
    mx, tx = c.array(X.month), c.array(X.time)
    R = getattr(X, op)(Y)
    L, M = shared(A, B)
    eC, eS = x[0].copy(), x[1].copy()
    for l in range(L+1):
        for m in range(min(l, M)+1):
            for t in ([()] if na is None else [(i,) for i in range(na)]):
                k, k2 = (l, m) + t, (l, m) + (t if nb else ())
                eC[k] = f(x[0][k], y[0][k2])
                if m > 0:
                    eS[k] = f(x[1][k], y[1][k2])
    c.same(R is X, True, 'changes the object itself')
    c.close(X.clm, eC, 1e-9, 'cosine')
    c.close(X.slm, eS, 1e-9, 'sine')
    c.same((int(X.lmax), int(X.mmax)), A, 'degree and order')
    c.close(c.array(X.month), mx, 0, 'month')
    c.close(c.array(X.time), tx, 0, 'time')
    unchanged(c, Y, sy, 'operand unchanged')
    spoil(X)
    unchanged(c, Y, sy, 'operand unchanged')

UN = [dict(L=2, M=2, n=None), dict(L=3, M=1, n=None), dict(L=2, M=0, n=2), dict(L=2, M=2, n=3), dict(L=0, M=0, n=None), dict(L=3, M=2, n=1), dict(L=40, M=30, n=None), dict(L=1, M=1, n=40)]

@harness('C13', configs=[dict(series=s, **u) for u in UN for s in (False, True)], mix=16)
def scale(c, series, L, M, n):
    X = harm(c, 'a', L, M, n)
    x = keep(X)
    s = snap(c, X)
    nv = (n or 3)
    v = c.reals('v', nv, -5, 5) if series else c.real('v', -5, 5)
    R = X.scale(v)
    if series:
        eC = c.array([[[v[i]*(x[0][l, m] if n is None else x[0][l, m, i]) for i in range(nv)] for m in range(M+1)] for l in range(L+1)])
        eS = c.array([[[v[i]*(x[1][l, m] if n is None else x[1][l, m, i]) for i in range(nv)] for m in range(M+1)] for l in range(L+1)])
    else:
        eC, eS = v*x[0], v*x[1]
    c.close(R.clm, eC, 1e-9, 'cosine')
    c.close(R.slm, eS, 1e-9, 'sine')
    c.close(c.array(R.month), c.array(X.month), 0, 'month')
    c.close(c.array(R.time), c.array(X.time), 0, 'time')
    c.same((int(R.lmax), int(R.mmax)), (L, M), 'degree and order')
    spoil(R)
    unchanged(c, X, s, 'original unchanged')

@harness('C13', configs=[dict(p=p, **u) for u in UN for p in (2, 3)], mix=16)
def power(c, p, L, M, n):
    X = harm(c, 'a', L, M, n)
    x = keep(X)
    s = snap(c, X)
    R = X.power(p)
    c.close(R.clm, x[0]**p, 1e-9, 'cosine')
    c.close(R.slm, x[1]**p, 1e-9, 'sine')
    c.close(c.array(R.time), c.array(X.time), 0, 'time')
    c.close(c.array(R.month), c.array(X.month), 0, 'month')
    spoil(R)
    unchanged(c, X, s, 'original unchanged')

@harness('C13', configs=UN, mix=16)
def convolve(c, L, M, n):
    X = harm(c, 'a', L, M, n)
    x = keep(X)
    v = c.reals('v', L+2, -5, 5)
    R = X.convolve(v)
    e = [a.copy() for a in x]
    for a in e:
        for l in range(L+1):
            a[l] = a[l]*v[l]
    c.same(R is X, True, 'changes the object itself')
    c.close(X.clm, e[0], 1e-9, 'cosine')
    c.close(X.slm, e[1], 1e-9, 'sine')

@harness('C13', configs=[dict(L=L, M=M, epoch=e) for L, M, e in ((2, 2, None), (3, 1, 2010.0), (1, 0, 2002.5))], mix=8)
def drift(c, L, M, epoch):
    X = harm(c, 'a', L, M)
    x = keep(X)
    m, t = month_time(3)
    kw = {} if epoch is None else dict(epoch=epoch)
    s = snap(c, X)
    R = X.drift(c.arr(t), **kw)
    for i in range(3):
        d = t[i] - (2003.3 if epoch is None else epoch)
        c.close(R.clm[:, :, i], x[0]*d, 1e-9, 'cosine')
        c.close(R.slm[:, :, i], x[1]*d, 1e-9, 'sine')
    c.close(c.array(R.time), c.arr(t), 0, 'time')
    c.close(c.array(R.month), c.arr(m), 0, 'month')
    spoil(R)
    unchanged(c, X, s, 'original unchanged')

@harness('C13', configs=[dict(L=L, M=M, n=n, apply=a, ind=i) for L, M, n, i in ((2, 2, 3, None), (3, 1, 4, (0, 2)), (2, 2, 1, None), (1, 1, 3, (1,)), (2, 0, 4, 'slice')) for a in (False, True)], mix=12, ok=lambda n, ind, **k: n > 2 if ind == 'slice' else ind is None or max(ind) < n)
def mean(c, L, M, n, apply, ind):
    X = harm(c, 'a', L, M, n)
    x = keep(X)
    time, month = c.array(X.time).copy(), c.array(X.month).copy()
    ii = list(range(n)) if ind is None else ([1, 2] if ind == 'slice' else list(ind))
    kw = {} if ind is None else dict(indices=slice(1, 3) if ind == 'slice' else np.array(ind))
    R = X.mean(apply=apply, **kw)
    mC, mS = (sum(a[:, :, i] for i in ii)/len(ii) for a in x)
    c.close(R.clm, mC, 1e-9, 'cosine mean')
    c.close(R.slm, mS, 1e-9, 'sine mean')
    c.close(R.time, sum(time[i] for i in ii)/len(ii), 1e-9, 'mean time')
    for i in range(n):
        c.close(X.clm[:, :, i], x[0][:, :, i] - (mC if apply else 0*mC), 1e-9, 'cosine after')
        c.close(X.slm[:, :, i], x[1][:, :, i] - (mS if apply else 0*mS), 1e-9, 'sine after')
    c.close(c.array(X.time), time, 0, 'time')
    c.close(c.array(X.month), month, 0, 'month')
    c.same((int(R.lmax), int(R.mmax)), (L, M), 'degree and order')

@harness('C13', configs=[dict(L=L, M=M, n=n) for L, M, n in ((2, 2, None), (3, 1, None), (1, 1, 2), (2, 0, 3), (4, 2, 1), (1, 0, 40))], mix=16)
def amplitude(c, L, M, n):
    """root sum of squares over orders of every degree"""
    X = harm(c, 'a', L, M, n)
    x = keep(X)
    r = X.amplitude
    e = c.zeros((L+1,) if n is None else (L+1, n))
    for l in range(L+1):
        for t in ([()] if n is None else [(i,) for i in range(n)]):
            e[(l,) + t] = c.np.sqrt(sum(x[0][(l, m) + t]**2 + x[1][(l, m) + t]**2 for m in range(min(l, M)+1)))
    c.close(r, e, 1e-9, 'amplitude')
    c.close(X.ilm.real, x[0], 0, 'complex form')
    c.close(X.ilm.imag, -x[1], 0, 'complex form')
    # harmonics which have changed since
    X.clm[:], X.slm[:] = 3.0*X.clm, 3.0*X.slm
    c.close(X.amplitude, 3.0*e, 1e-9, 'amplitude after a change')
    c.close(X.ilm.real, 3.0*x[0], 1e-12, 'complex form after a change')
    c.close(X.ilm.imag, -3.0*x[1], 1e-12, 'complex form after a change')

@harness('C13', configs=[dict(L=L, M=M, n=n, LM=LM, MM=MM) for L, M, n, LM, MM in ((2, 2, None, None, None), (3, 1, None, None, None), (3, 3, 2, 2, None), (3, 3, None, 3, 1), (4, 2, 3, 3, 2), (1, 1, 1, None, None), (3, 3, 2, 1, 0))], mix=16, ok=lambda L, M, LM, MM, **k: (LM or 0) <= L and (MM or 0) <= min(M, L if LM is None else LM))
def degree_amplitude(c, L, M, n, LM, MM):
    C, S = tri(c, 'a', L, M, n)
    r = c.gt.degree_amplitude(C, S, LMAX=LM, MMAX=MM)
    LM, MM = L if LM is None else LM, M if MM is None else MM
    e = c.zeros((LM+1,) if n in (None, 1) else (LM+1, n))
    for l in range(LM+1):
        for i in range(n or 1):
            k = () if n is None else (i,)
            e[(l,) if n in (None, 1) else (l, i)] = c.np.sqrt(sum(C[(l, m) + k]**2 + S[(l, m) + k]**2 for m in range(min(l, MM)+1)))
    c.close(r, e, 1e-9, 'amplitude')

@harness('C13', configs=[dict(L=L, M=M, n=n, LM=a, MM=b) for L, M, n, a, b in ((60, 60, None, None, None), (48, 30, 2, 40, None), (60, 60, None, 60, 33))])
def amplitude_realistic(c, L, M, n, LM, MM):
    """degrees of monthly solutions: listed coefficients times one positive factor"""
    s = c.real('s', 0.5, 20)
    rng = np.random.default_rng(L + M)
    sh = (L+1, M+1) + (() if n is None else (n,))
    N, Q = np.round(rng.uniform(-1, 1, sh), 3), np.round(rng.uniform(-1, 1, sh), 3)
    l, m = np.indices((L+1, M+1))
    N[m > l], Q[(m > l) | (m == 0)] = 0, 0
    Y = c.gt.harmonics(lmax=L, mmax=M)
    Y.clm, Y.slm = c.arr(N)*s, c.arr(Q)*s
    top, MX = L if LM is None else LM, M if MM is None else MM
    e = np.sqrt((N**2 + Q**2).sum(1))
    f = np.sqrt((N**2 + Q**2)[:top+1, :MX+1].sum(1))
    c.close(Y.amplitude, c.arr(e)*s, 1e-7, 'amplitude of harmonics')
    c.close(c.gt.degree_amplitude(Y.clm, Y.slm, LMAX=LM, MMAX=MM), c.arr(f)*s, 1e-7, 'degree amplitude')

@harness('C13', configs=[dict(L=2, M=1, n=n) for n in (None, 2)])
def identities(c, L, M, n):
    """laws the operations have to satisfy together"""
    X, Y = harm(c, 'a', L, M, n), harm(c, 'b', L, M, n, lo=1, hi=5)
    x = keep(X)
    s = snap(c, X)
    Z = X.copy().add(Y).subtract(Y)
    c.close(Z.clm, x[0], 1e-9, 'add then subtract')
    c.close(Z.slm, x[1], 1e-9, 'add then subtract')
    Z = X.copy().multiply(Y).divide(Y)
    c.close(Z.clm, x[0], 1e-9, 'multiply then divide')
    c.close(Z.slm, x[1], 1e-9, 'multiply then divide')
    Z = X.scale(2.0).subtract(X)
    c.close(Z.clm, x[0], 1e-9, 'twice minus once')
    Z = X.zeros_like().add(X)
    c.close(Z.clm, x[0], 0, 'zero is neutral')
    spoil(Z)
    unchanged(c, X, s, 'original unchanged')

doc('C13', 'all coefficients in [-10,10] (divisors in [1,4]), factors in [-5,5]; degrees and orders up to 4 (thorough 6), differing between operands in either direction; single fields and series of up to 4 months; degrees to 60 and series to 40 months', ['series have their times set, and coefficients above the diagonal are zero'])
