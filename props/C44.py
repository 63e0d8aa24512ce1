"""C44 periodograms of unevenly sampled series"""
import numpy as np
from symx.harness import harness, doc
from props.C26 import dates

def lomb(t, x, w, normal):
    """least-squares power of a series at angular frequencies (Lomb, 1976; Scargle, 1982)"""
    out = []
    for v in w:
        tau = np.arctan2(np.sum(np.sin(2*v*t)), np.sum(np.cos(2*v*t)))/(2*v)
        a, b = np.cos(v*(t - tau)), np.sin(v*(t - tau))
        p = 0.5*(np.dot(x, a)**2/np.dot(a, a) + np.dot(x, b)**2/np.dot(b, b))
        out.append(2.0*p/np.dot(x, x) if normal else p)
    return np.array(out)

LC = [dict(n=n, kind=k, rng=r, N=N, normal=q, p=p, shape=s) for n, k, r, N, q, p, s in (
    (20, 'PERIOD', (0.2, 2.0), 30, False, None, 1), (33, 'FREQUENCY', (0.3, 4.0), 25, False, [0.1, 0.01], 1), (15, 'OMEGA', (1.0, 20.0), 40, True, None, 2), (24, 'PERIOD', (3.0, 0.3), 20, True, 0.05, 1), (12, 'FREQUENCY', (2.0, 0.5), 8, True, None, 2), (4, 'OMEGA', (0.5, 9.0), 11, False, None, 1), (60, 'PERIOD', (0.4, 5.0), None, False, None, 1), (220, 'PERIOD', (0.2, 12.0), 400, True, None, 1), (160, 'FREQUENCY', (0.05, 6.0), 1200, False, 0.02, 2))]

@harness('C44', configs=LC, mix=16)
def periodogram(c, n, kind, rng, N, normal, p, shape):
    """a pattern in any unit and about any mean"""
    t = dates(n, n)
    x = np.random.default_rng(n).standard_normal(n) + 1.5*np.sin(2*np.pi*t/0.9)
    s, b = c.real('s', 0.1, 50), c.real('b', -100, 100)
    d = c.arr(x)*s + b
    T, D = (c.arr(t), d) if shape == 1 else (c.arr(t).reshape(1, -1), d.reshape(-1, 1))
    kw = {kind: list(rng), 'NORMALIZE': normal}
    if N is not None:
        kw['N'] = N
    if p is not None:
        kw['p'] = p
    R = c.gt.time_series.lomb_scargle(T, D, **kw)
    N = 1000 if N is None else N
    a, z = {'OMEGA': rng, 'FREQUENCY': [2*np.pi*f for f in rng], 'PERIOD': [2*np.pi/f for f in rng]}[kind]
    w = a + (z - a)*np.arange(N)/(N - 1.0)
    y = (x - np.mean(x))/np.sqrt(np.mean((x - np.mean(x))**2))
    P = lomb(t - t[0], y, w, normal)
    M = max(1.0, round(-6.362 + 1.193*n + 0.00098*n**2))
    c.close(R['frequency'], w/(2*np.pi), 1e-9, 'frequencies')
    c.close(R['period'], 2*np.pi/w, 1e-9, 'periods')
    c.close(R['PowerDensity'], P, 1e-6, 'power')
    c.close(R['Probability'], 1.0 - (1.0 - np.exp(-P))**M, 1e-6, 'probability')
    q = np.atleast_1d([0.05, 0.01, 0.001, 1e-4, 1e-5, 1e-6] if p is None else p)
    c.close(R['contour'], -np.log(1.0 - (1.0 - q)**(1.0/M)), 1e-6, 'levels of probability')
    c.close(R['Nyquist'], 1.0/(2.0*(t[-1] - t[0])/(n - 1.0)), 1e-6, 'Nyquist frequency')
    c.close(R['peak'], 2*np.pi/w[np.argmax(P)], 1e-9, 'peak')
    c.close(R['centroid'], np.sum(P*2*np.pi/w)/np.sum(P), 1e-6, 'centroid')
    c.close(D.reshape(-1), c.arr(x)*s + b, 0, 'series')

doc('C44', 'series of 4 to 220 values: a pattern in any unit (factor 0.1 to 50) about any mean (-100 to 100); listed ranges of frequencies', ['the quadratic form of scipy.signal.lombscargle is the library\'s; the series handed to it does not depend on the free values'])
