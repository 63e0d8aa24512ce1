"""C18 removal of correlated (striping) patterns"""
from fractions import Fraction
import numpy as np
from symx.harness import harness, doc
from props.hutil import *

def rint(x):
    return int(np.round(x))

def window(m, rounded):
    s = 15.0*np.exp(-m/10.0)
    return max(2, rint(s) if rounded else int(s))

def smoother(n, size):
    """matrix of moving quadratic fits, end points from the first and last fit"""
    A = np.zeros((size, size))
    X = np.array([[1.0, x, x*x] for x in range(-n, n+1)])
    H = X @ np.linalg.solve(X.T @ X, X.T)
    for i in range(size):
        j = min(max(i, n), size - n - 1)
        A[i, j-n:j+n+1] = H[i - j + n]
    return A

def filtered(c, C, m, L, rounded, narrow):
    """coefficients of one order after the filter"""
    n = window(m, rounded)
    out = C.copy()
    for par in (0, 1):
        ls = [l for l in range(m, L+1) if l % 2 == par]
        if len(ls) < 2*n + 1:
            for l in ls:
                if not narrow:
                    out[l] = 0*C[l]
            continue
        A = smoother(n, len(ls))
        for i, l in enumerate(ls):
            fit = 0.0
            for j, k in enumerate(ls):
                if A[i, j]:
                    fit = fit + float(A[i, j])*C[k]
            out[l] = C[l] - fit
    return out

def expected(c, C, L, M, rounded, narrow):
    e = C.copy()
    for m in range(5, M+1):
        e[:, m] = filtered(c, C[:, m], m, L, rounded, narrow)
    return e

CFG = [dict(L=l, M=m, lo=lo, rounded=r, narrow=w) for l, m, lo, r, w in ((1, None, 0, True, False), (4, None, 0, True, False), (7, None, 0, True, False), (8, 6, 0, False, True), (30, None, 14, True, False), (30, None, 14, False, True), (31, 24, 10, True, True), (31, 24, 10, False, False),
    (45, 8, 3, True, False), (44, 8, 3, False, False), (40, None, 30, True, True), (75, None, 58, True, False), (96, 90, 78, True, True), (120, None, 110, False, False))]

def coefs(c, L, M, lo):
    C, S = c.zeros((L+1, M+1)), c.zeros((L+1, M+1))
    for m in [x for x in (0, 3, 4) if x <= M] + [x for x in range(max(lo, 1), M+1) if x > 4]:
        for l in range(m, L+1):
            C[l, m] = c.real(f'C{l},{m}', -10, 10)
            if m:
                S[l, m] = c.real(f'S{l},{m}', -10, 10)
    return C, S

@harness('C18', configs=CFG, thorough=[dict(L=60, M=None, lo=0, rounded=r, narrow=w) for r in (True, False) for w in (True, False)], mix=10)
def single(c, L, M, lo, rounded, narrow):
    Mx = L if M is None else M
    C, S = coefs(c, L, Mx, lo)
    c0, s0 = C.copy(), S.copy()
    R = c.gt.destripe_harmonics(C, S, LMAX=L, MMAX=M, ROUND=rounded, NARROW=narrow)
    c.close(R['clm'], expected(c, c0, L, Mx, rounded, narrow), 1e-9, 'cosine')
    c.close(R['slm'], expected(c, s0, L, Mx, rounded, narrow), 1e-9, 'sine')
    c.close(C, c0, 0, 'input')
    c.close(S, s0, 0, 'input')

@harness('C18', configs=[dict(L=9, M=None, nt=2, kw={}), dict(L=9, M=7, nt=3, kw=dict(NARROW=True)), dict(L=10, M=8, nt=None, kw={}), dict(L=30, M=22, nt=2, kw=dict(ROUND=False)), dict(L=8, M=None, nt=1, kw={})])
def objects(c, L, M, nt, kw):
    Mx = L if M is None else M
    Y = harm(c, 'y', L, M, nt) if L < 20 else harm(c, 'y', 1, 1, nt)
    if L >= 20:
        Y = c.gt.harmonics(lmax=L, mmax=Mx)
        Y.clm, Y.slm = c.zeros((L+1, Mx+1, nt)), c.zeros((L+1, Mx+1, nt))
        for t in range(nt):
            for m in (17, 20, 22):
                for l in range(m, L+1):
                    Y.clm[l, m, t] = c.real(f'C{l},{m},{t}', -10, 10)
                    Y.slm[l, m, t] = c.real(f'S{l},{m},{t}', -10, 10)
        mo, tm = month_time(nt)
        Y.month, Y.time = c.arr(mo), c.arr(tm)
    s = snap(c, Y)
    R = Y.destripe(**kw)
    args = (kw.get('ROUND', True), kw.get('NARROW', False))
    eC, eS = s['clm'].copy(), s['slm'].copy()
    for t in ([None] if nt is None else range(nt)):
        k = Ellipsis if nt is None else (slice(None), slice(None), t)
        eC[k] = expected(c, s['clm'][k], L, Mx, *args)
        eS[k] = expected(c, s['slm'][k], L, Mx, *args)
    c.close(R.clm, eC, 1e-9, 'cosine')
    c.close(R.slm, eS, 1e-9, 'sine')
    c.close(c.array(R.time), c.array(Y.time), 0, 'time')
    c.close(c.array(R.month), c.array(Y.month), 0, 'month')
    c.same((int(R.lmax), int(R.mmax)), (L, Mx), 'degree and order')
    spoil(R)
    unchanged(c, Y, s, 'input')

doc('C18', 'all coefficients up to 10 in size, maximum degrees 1 to 45 (thorough: 60 with every order), truncated orders, both ways to choose and to narrow the window')
