"""C19 averaging kernels"""
import numpy as np
from symx.harness import harness, doc
from props.hutil import *
from props.C12 import RAD, RHO

def gaussian(hw, L):
    """integral of exp(-b(1-x)) P_l(x) over [-1,1]"""
    b = np.log(2)/(1 - np.cos(hw/(RAD/1e5)))
    t, w = np.polynomial.legendre.leggauss(600)
    top = min(2.0, 60.0/b)
    y = (t + 1)/2*top
    P = np.polynomial.legendre.legvander(1 - y, L)
    return ((np.exp(-b*y)*w*top/2)[:, None]*P).sum(0)

LOVE = np.array([0.0, 0.021, -0.303, -0.194, -0.132, -0.104, -0.089, -0.081, -0.076])

CFG = [dict(L=4, M=None, hw=4000.0, units=1, extra=0, cut=0.03)] + [dict(L=l, M=m, hw=h, units=u, extra=x) for l, m, h, u, x in ((1, None, 500.0, 1, 0), (2, None, 300.0, 1, 0), (2, None, 1000.0, 0, 0), (3, 2, 500.0, 0, 0), (4, 1, 800.0, 1, 0), (3, 0, 400.0, 1, 0), (3, None, 600.0, 0, 2), (4, None, 250.0, 0, 0))]

@harness('C19', configs=CFG, thorough=[dict(L=6, M=None, hw=500.0, units=u, extra=0) for u in (0, 1)], mix=8, ok=lambda L, extra, hw, cut=None, **k: (cut is None or extra == 0) and (L < 6 or hw < 1000))
def kernel(c, L, M, hw, units, extra, cut=None):
    Mx = L if M is None else M
    gc, gs = tri(c, 'g', L+extra, Mx+extra, lo=0.01, hi=1)
    ec, es = tri(c, 'e', L+extra, Mx+extra, lo=0, hi=1)
    if units == 0:
        ec, es = ec*1e-9, es*1e-9
    for l, m in np.ndindex(*gc.shape):
        if (l + 2*m) % 3 == 1:
            gc[l, m] = -gc[l, m]
        if (l*m) % 2:
            gs[l, m] = -gs[l, m]
    gc[0, 0] = c.real('area', 0.3, 1)
    sg = c.real('sigma', 0.5, 10)
    k = c.arr(LOVE[:L+1])
    if units == 0:
        LV = (c.zeros(L+1), k, c.zeros(L+1))
        d = [RHO*RAD*(2.0*l+1.0)/(1.0 + k[l])/3.0 for l in range(L+1)]
    else:
        LV, d = None, [1.0]*(L+1)
    snaps = [x.copy() for x in (gc, gs, ec, es)]
    R = c.gt.gen_averaging_kernel(gc, gs, ec, es, sg, hw, LMAX=L, MMAX=M, UNITS=units, LOVE=LV, **({} if cut is None else dict(CUTOFF=cut)))
    G = gaussian(hw, L)
    if cut is not None:
        small = [l for l in range(2, L+1) if G[l] < cut]
        if small:
            G[small[0]:] = cut
    area = gc[0, 0]
    tot = 0.0
    for l in range(L+1):
        for m in range(min(l, Mx)+1):
            tot = tot + float(G[l])/2*(gc[l, m]**2 + gs[l, m]**2)
    # variance scaled so that the kernel average has the given one
    s2 = sg**2*area**2/tot
    C, S = c.zeros((L+1, Mx+1)), c.zeros((L+1, Mx+1))
    for l in range(L+1):
        for m in range(min(l, Mx)+1):
            w = 2*d[l]**2/float(G[l])/s2
            C[l, m] = (R.clm[l, m]/gc[l, m]*area*(1 + w*ec[l, m]**2) - 1)/(1 + w*ec[l, m]**2)
            if m:
                S[l, m] = (R.slm[l, m]/gs[l, m]*area*(1 + w*es[l, m]**2) - 1)/(1 + w*es[l, m]**2)
            else:
                S[l, m] = R.slm[l, m]
    c.close(C, c.zeros(C.shape), 1e-7, 'cosine')
    c.close(S, c.zeros(C.shape), 1e-7, 'sine')
    c.same(tuple(R.clm.shape), (L+1, Mx+1), 'size')
    for x, y in zip((gc, gs, ec, es), snaps):
        c.close(x, y, 0, 'input')

@harness('C19', configs=[dict(L=L, M=M, hw=hw, units=u) for L, M, hw, u in ((40, None, 300.0, 1), (30, 18, 400.0, 0), (60, None, 250.0, 1))])
def realistic(c, L, M, hw, units):
    """high degrees: listed kernels and errors times free factors"""
    Mx = L if M is None else M
    rng = np.random.default_rng(L)
    keep = np.tril(np.ones((L+1, Mx+1)))
    g0, s0 = (np.round(keep*rng.uniform(0.05, 1, keep.shape)*rng.choice([-1, 1], keep.shape), 4) for _ in range(2))
    e0, f0 = (np.round(keep*rng.uniform(0.05, 1, keep.shape), 4) for _ in range(2))
    g0[0, 0] = 0.7
    s0[:, 0] = f0[:, 0] = 0
    x, y, sg = c.real('scale', 0.1, 1), c.real('errors', 0, 1), c.real('sigma', 0.5, 10)
    gc, gs = c.arr(g0)*x, c.arr(s0)*x
    z = y*1e-9 if units == 0 else y
    ec, es = c.arr(e0)*z, c.arr(f0)*z
    l = np.arange(L+1)
    k = -0.31/(l + 1.0)**0.8
    LV = tuple(c.arr(q) for q in (0*k, k, 0*k)) if units == 0 else None
    d = RHO*RAD*(2.0*l + 1.0)/(1.0 + k)/3.0*1e-9 if units == 0 else np.ones(L+1)
    R = c.gt.gen_averaging_kernel(gc, gs, ec, es, sg, hw, LMAX=L, MMAX=M, UNITS=units, LOVE=LV)
    G = np.maximum(gaussian(hw, L), 1e-15)
    # variance of the kernel
    tot = float(np.sum(G[:, None]/2*(g0**2 + s0**2)))
    for q, a, b, n in ((R.clm, g0, e0, 'cosine'), (R.slm, s0, f0, 'sine')):
        w = 2*(d[:, None]*b)**2/G[:, None]*tot/0.7**2
        C = c.array(q)*0.7*(c.arr(np.ones(w.shape)) + c.arr(w)*(y**2/sg**2))
        for i, j in np.ndindex(*w.shape):
            c.close(C[i, j]/(1.0 + w[i, j]), a[i, j]/(1.0 + w[i, j]), 1e-6, n)
    c.same(tuple(R.clm.shape), (L+1, Mx+1), 'size')

doc('C19', 'every kernel and error up to 1 in size (errors 1e-9 for normalised coefficients), every variance, realistic Love numbers, degrees to 4 (thorough 6), listed radii; degrees 30-60 as listed kernels and errors times free factors')
