"""C21 geocenter motion and degree one harmonics"""
import numpy as np
from symx.harness import harness, doc
from props.hutil import *

R0 = 1000.0*6378137.0*(1.0 - 1.0/298.257223563)**(1.0/3.0)
DEG = ('C10', 'C11', 'S11')
XYZ = ('Z', 'X', 'Y')
ERR = ('eC10', 'eC11', 'eS11')
SIG = ('Z_sigma', 'X_sigma', 'Y_sigma')

def geo(c, n, radius=None, errors=False, keys=DEG+ERR, date=True, lo=-10, hi=10, tag=''):
    """an object with a series (n months) or a single value"""
    g = c.gt.geocenter() if radius is None else c.gt.geocenter(radius=radius)
    v = {}
    for k in keys[:3] + (keys[3:] if errors else ()):
        v[k] = c.reals(tag + k, n, lo, hi) if n else c.array(c.real(tag + k, lo, hi))
        setattr(g, k, v[k].copy())
    if date:
        m, t = month_time(n or 1)
        g.month, g.time = (c.arr(m), c.arr(t)) if n else (np.int64(m[0]), np.float64(t[0]))
    return g, v

CF = [dict(n=n, radius=r, errors=e) for n, r, e in ((210, None, True), (3, None, False), (None, None, True), (1, 6.378136e9, True), (2, 6.371e9, False))]

@harness('C21', configs=CF, mix=8)
def cartesian(c, n, radius, errors):
    kl = c.real('kl', -0.4, 0.4)
    R = (radius or R0)*np.sqrt(3.0)
    g, v = geo(c, n, radius, errors)
    g.to_cartesian(kl=kl)
    for a, b in zip(DEG + (ERR if errors else ()), XYZ + (SIG if errors else ())):
        c.close(c.array(g[b])*(1.0 + kl)/R, v[a], 1e-9, f'{b} of {a}')
        c.close(g[a], v[a], 0, f'{a} kept')
    h, w = geo(c, n, radius, errors, keys=XYZ+SIG, tag='x')
    h.from_cartesian(kl=kl)
    for a, b in zip(DEG + (ERR if errors else ()), XYZ + (SIG if errors else ())):
        c.close(c.array(h[a])*R, w[b]*(1.0 + kl), 1e-9, f'{a} of {b}')
    # and back, without load Love number
    q = h.copy()
    q.from_cartesian().to_cartesian()
    for b in XYZ + (SIG if errors else ()):
        c.close(q[b], w[b], 1e-9, f'{b} recovered')

@harness('C21', configs=CF, mix=8)
def water(c, n, radius, errors):
    kl = c.real('kl', -0.4, 0.4)
    f = 5.517*6.371e8
    for name, s in (('cmwe', 1.0), ('mmwe', 10.0)):
        g, v = geo(c, n, radius, errors, tag=name)
        getattr(g, 'to_' + name)(kl=kl)
        for a in DEG + (ERR if errors else ()):
            c.close(c.array(g[a])*(1.0 + kl)/(f*s), v[a], 1e-9, f'{a} to {name}')
        h, w = geo(c, n, radius, errors, tag='i' + name)
        getattr(h, 'from_' + name)(kl=kl)
        for a in DEG + (ERR if errors else ()):
            c.close(c.array(h[a])*(f*s), w[a]*(1.0 + kl), 1e-9, f'{a} from {name}')
        getattr(h, 'to_' + name)(kl=kl)
        for a in DEG + (ERR if errors else ()):
            c.close(h[a], w[a], 1e-9, f'{a} recovered')

@harness('C21', configs=[dict(n=n, one=o) for n, o in ((3, False), (3, True), (None, False), (1, False), (220, True), (201, False))])
def algebra(c, n, one):
    for op, f in (('add', lambda a, b: a + b), ('subtract', lambda a, b: a - b), ('multiply', lambda a, b: a*b), ('divide', None)):
        g, v = geo(c, n, tag=op)
        h, w = geo(c, None if one else n, tag=op + 'o', lo=0.5)
        getattr(g, op)(h)
        for k in DEG:
            if op == 'divide':
                c.close(g[k]*w[k], v[k], 1e-8, f'{op} {k}')
            else:
                c.close(g[k], f(v[k], w[k]), 1e-9, f'{op} {k}')
            c.close(h[k], w[k], 0, f'{op} operand')
    g, v = geo(c, n, radius=6.4e9)
    t, m = c.array(g.time).copy(), c.array(g.month).copy()
    x = c.real('factor', -3, 3)
    for r, e, name in ((g.scale(x), lambda a: a*x, 'scale'), (g.power(3), lambda a: a**3, 'power')):
        for k in DEG:
            c.close(r[k], e(v[k]), 1e-7, f'{name} {k}')
            c.close(g[k], v[k], 0, f'{name} original')
        c.close(c.array(r.time), t, 0, f'{name} time')
        c.close(c.array(r.month), m, 0, f'{name} month')
        r.to_cartesian()
        c.close(c.array(r.Z)/(6.4e9*np.sqrt(3.0)), e(v['C10']), 1e-7, f'{name} radius')
    if n == 3:
        y = c.reals('factors', 3, -3, 3)
        r = g.scale(y)
        for k in DEG:
            c.close(r[k], v[k]*y, 1e-9, f'scale by series {k}')

@harness('C21', configs=[dict(n=4, idx=None, apply=True), dict(n=4, idx=(0, 2), apply=True), dict(n=3, idx=(1,), apply=False), dict(n=1, idx=None, apply=True), dict(n=5, idx=(4, 1, 3), apply=False), dict(n=230, idx=None, apply=True), dict(n=230, idx=tuple(range(3, 220, 2)), apply=True)], mix=10, ok=lambda n, idx, **k: idx is None or max(idx) < n)
def mean(c, n, idx, apply):
    g, v = geo(c, n, radius=6.4e9)
    t, mo = month_time(n)
    kw = {} if idx is None else dict(indices=c.arr(idx, dtype=int))
    r = g.mean(apply=apply, **kw)
    ii = list(idx) if idx is not None else list(range(n))
    for k in DEG:
        s = 0.0
        for i in ii:
            s = s + v[k][i]
        s = s/float(len(ii))
        c.close(r[k], s, 1e-9, f'mean {k}')
        c.close(g[k], v[k] - s if apply else v[k], 1e-9, f'{k} of series')
    c.close(r.time, np.mean([mo[i] for i in ii]), 1e-9, 'time of mean')
    c.close(r.month, np.mean([t[i] for i in ii]), 1e-9, 'month of mean')

@harness('C21', configs=[dict(n=n, errors=e) for n, e in ((3, True), (None, False), (1, True), (205, True))])
def structure(c, n, errors):
    g, v = geo(c, n, radius=6.4e9, errors=errors)
    g.to_cartesian()
    ks = DEG + XYZ + ((ERR + SIG) if errors else ())
    q = g.copy()
    d = g.to_dict()
    h = c.gt.geocenter().from_dict(d)
    for r, name in ((q, 'copy'), (h, 'dictionary')):
        for k in ks + ('time', 'month'):
            c.close(c.array(r[k]), c.array(g[k]), 0, f'{name} {k}')
    q.add(g)
    h.subtract(g)
    for k in DEG:
        c.close(q[k], 2*v[k], 1e-9, 'copy is independent')
        c.close(h[k], 0*v[k], 1e-9, 'dictionary is independent')
        c.close(g[k], v[k], 0, 'original')
    q.to_cartesian()
    c.close(c.array(q.X)/(6.4e9*np.sqrt(3.0)), 2*v['C11'], 1e-8, 'radius of copy')
    m = g.to_matrix()
    N = n or 1
    for k, (a, i, j) in zip(DEG, (('clm', 1, 0), ('clm', 1, 1), ('slm', 1, 1))):
        c.close(m[a][i, j], c.array(v[k]).reshape(N), 0, f'matrix {k}')
    c.close(c.array([m['clm'][0, 0], m['clm'][0, 1], m['slm'][0, 0], m['slm'][0, 1], m['slm'][1, 0]]), c.zeros((5, N)), 0, 'rest of matrix')
    r = c.gt.geocenter().from_matrix(m['clm'], m['slm'])
    for k in DEG:
        c.close(r[k], c.array(v[k]).reshape(N), 0, f'from matrix {k}')
    m['clm'][...] = 77
    for k in DEG:
        c.close(r[k], c.array(v[k]).reshape(N), 0, f'matrix not shared {k}')
    if n:
        for again in range(2):
            i = 0
            for r in g:
                for k in DEG + ('time', 'month'):
                    c.close(c.array(r[k]), c.array(g[k])[i], 0, f'iteration {k}')
                r.to_cartesian()
                c.close(c.array(r.Y)/(6.4e9*np.sqrt(3.0)), v['S11'][i], 1e-8, 'radius of months')
                i += 1
            c.same(i, n, 'months')
        c.same(len(g), n, 'length')

@harness('C21', configs=[dict(L=1, M=1, n=None), dict(L=3, M=2, n=3), dict(L=2, M=2, n=1)], mix=8)
def harmonic_objects(c, L, M, n):
    Y = harm(c, 'y', L, M, n)
    g = c.gt.geocenter().from_harmonics(Y)
    h = c.gt.geocenter().from_matrix(Y.clm, Y.slm)
    for k, (a, i, j) in zip(DEG, ((Y.clm, 1, 0), (Y.clm, 1, 1), (Y.slm, 1, 1))):
        e = a[i, j].copy() if n else a[i, j]
        c.close(g[k], e, 0, f'{k} of harmonics')
        c.close(h[k], c.array(e).reshape(n or 1), 0, f'{k} of matrices')
    c.close(c.array(g.time), c.array(Y.time), 0, 'time')
    c.close(c.array(g.month), c.array(Y.month), 0, 'month')
    s = snap(c, Y)
    g.add(g.copy())
    g.month = 0
    unchanged(c, Y, s, 'harmonics')

doc('C21', 'all degree one coefficients and coordinates in [-10,10], load Love numbers in [-0.4,0.4], single values and series to 5 months (some of the whole record), default and given radii')
