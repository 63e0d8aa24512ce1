"""C27 smoothing of time series"""
import math
import numpy as np
from symx.harness import harness, doc
from props.C26 import dates, data, design, lstsq, apply, ss, tstar

SM = [dict(n=n, h=h, err=e, stdev=sd, conf=cf, epoch=ep, mode=m) for n, h, e, sd, cf, ep, m in (
    (15, None, 0, 0, 0, 0, 'scaled'), (14, 6, 0.3, 0, 0, 0, 'any'), (11, 5, 0, 2, 0, 2.0, 'scaled'), (12, 4, 0, 0, 0.68, 0, 'scaled'), (13, None, 0, 0, 0, 2002.0, 'linear'), (10, 4, 1.5, 0, 0, 1.0, 'scaled'))]

SM += [dict(n=n, h=h, err=e, stdev=0, conf=0, epoch=2002.0, mode=m) for n, h, e, m in ((150, None, 0, 'scaled'), (90, 9, 0.3, 'scaled'))]

def window(c, t, d, i, h):
    """fit over the window centred on i + h"""
    r = slice(i, i + 2*h + 1)
    X = design(t[r], 0.0, 1, [1.0, 0.5], [])
    G, H = lstsq(X)
    return r, X, apply(c, G, d[r]), H, G

@harness('C27', configs=SM, thorough=[dict(n=40, h=6, err=0, stdev=0, conf=0, epoch=0, mode='scaled'), dict(n=30, h=8, err=0.4, stdev=0, conf=0, epoch=0, mode='any')], mix=12, ok=lambda n, h, **k: n > 2*(h or 6) + 1)
def loess(c, n, h, err, stdev, conf, epoch, mode):
    t = dates(n, n) - 2002.0 + epoch
    d, s = data(c, n, 'any' if mode == 'linear' else mode, n)
    d0 = d.copy()
    kw = {} if h is None else dict(HFWTH=h)
    h = 6 if h is None else h
    tt = c.arr(t)
    R = c.mod('time_series.smooth').smooth(tt, d, DATA_ERR=err, STDEV=stdev, CONF=conf, **kw)
    m = n - 2*h
    c.close(R['time'], c.arr(t[h:n-h]), 0, 'dates')
    c.close(R['reduce'], d0[h:n-h], 0, 'data of the dates')
    nu = 2*h + 1 - 6
    for i in range(m):
        r, X, b, H, G = window(c, t, d0, i, h)
        x = X[h]
        part = lambda a, e: sum((float(x[k])*b[k] for k in range(a, e)), 0.0)
        c.close(R['data'][i], part(0, 2), 1e-5, 'trend line')
        c.close(R['trend'][i], b[1], 1e-5, 'trend')
        c.close(R['seasonal'][i], part(2, 6), 1e-5, 'seasonal')
        c.close(R['annual'][i], part(2, 4), 1e-5, 'annual')
        c.close(R['semiann'][i], part(4, 6), 1e-5, 'semiannual')
        c.close(R['noise'][i], d0[i+h] - part(0, 6), 1e-5, 'noise')
        if mode == 'linear':
            continue
        if err:
            c.close(R['error'][i], err*float(np.sqrt(H[1, 1])), 1e-6, 'error')
        elif s is not None:
            sse = ss(list(d0[r] - apply(c, X @ G, d0[r])))/s**2
            c.close(R['error'][i]/s, c.np.sqrt(sse/float(nu))*float(np.sqrt(H[1, 1])*tstar(nu, stdev, conf)), 1e-5, 'error')
        if s is not None:
            for k, a, p in ((2, 'annamp', 'annphase'), (4, 'semiamp', 'semiphase')):
                bs, bc = b[k]/s, b[k+1]/s
                c.close(R[a][i]/s, c.np.sqrt(bs**2 + bc**2), 1e-6, a)
                c.close(R[p][i], c.np.arctan2(bc, bs)*(180/np.pi), 1e-5, p)
    c.close(d, d0, 0, 'data')
    c.close(tt, c.arr(t), 0, 'input dates')

@harness('C27', configs=[dict(n=n, h=h, weight=w, mode=m) for n, h, w, m in ((15, None, 1, 'any'), (14, 5, 2, 'any'), (13, 4, 1, 'scaled'), (15, 6, 2, 'scaled'))],
    thorough=[dict(n=36, h=6, weight=w, mode='any') for w in (1, 2)], mix=16)
def weighted(c, n, h, weight, mode):
    t = dates(n, n) - 2002.0
    d, s = data(c, n, mode, n)
    d0 = d.copy()
    kw = {} if h is None else dict(HFWTH=h)
    h = 6 if h is None else h
    R = c.mod('time_series.smooth').smooth(c.arr(t), d, WEIGHT=weight, **kw)
    w = np.array([h + 1 - abs(k - h) if weight == 1 else math.exp(-(k - h)**2/8.0)/(2.0*math.sqrt(2*math.pi)) for k in range(2*h+1)])
    keys = ('data', 'seasonal', 'annual', 'semiann') + (('annamp', 'semiamp', 'annphase', 'semiphase') if s is not None else ())
    out = {k: c.zeros(n) for k in keys}
    tot = np.zeros(n)
    for i in range(n - 2*h):
        r, X, b, H, G = window(c, t, d0, i, h)
        A = {k: apply(c, X[:, a:e] @ G[a:e], d0[r]) for k, a, e in (('data', 0, 2), ('seasonal', 2, 6), ('annual', 2, 4), ('semiann', 4, 6))}
        for k in keys:
            if k in A:
                v = A[k]
            else:
                j = 2 if k.startswith('ann') else 4
                v = c.zeros(2*h+1) + (c.np.sqrt((b[j]/s)**2 + (b[j+1]/s)**2)*s if k.endswith('amp') else c.np.arctan2(b[j+1]/s, b[j]/s)*(180/np.pi))
            for q in range(2*h+1):
                out[k][i+q] = out[k][i+q] + float(w[q])*v[q]
        tot[r] += w
    for k in keys:
        c.close(R[k], out[k]/c.arr(tot), 1e-5, k)
    c.close(R['noise'], d0 - (out['data'] + out['seasonal'])/c.arr(tot), 1e-5, 'noise')
    c.close(R['weight'], c.arr(tot), 1e-9, 'weight')
    c.close(R['time'], c.arr(t), 0, 'dates')
    c.close(d, d0, 0, 'data')

@harness('C27', configs=[dict(n=n, h=h) for n, h in ((15, None), (9, 3), (5, 2), (7, 1))], mix=6, ok=lambda n, h, **k: n > 2*(h or 6) + 1)
def moving(c, n, h):
    t, d = c.reals('t', n, 2000, 2020), c.reals('d', n, -10, 10)
    kw = {} if h is None else dict(HFWTH=h)
    R = c.mod('time_series.smooth').smooth(t, d, MOVING=True, **kw)
    h = 6 if h is None else h
    out = c.zeros(n - 2*h)
    for i in range(n - 2*h):
        x = (d[i] + d[i+2*h])/2.0
        for k in range(1, 2*h):
            x = x + d[i+k]
        out[i] = x/(2.0*h)
    c.close(R['data'], out, 1e-9, 'moving average')
    c.close(R['time'], t[h:n-h], 0, 'dates')

@harness('C27', configs=[dict(n=n, window=w, order=o, deriv=dv, rate=r, err=e) for n, w, o, dv, r, e in ((9, None, 2, 0, None, 0), (8, 5, 2, 1, None, 0.3), (9, 7, 3, 2, 2.0, 0.1), (7, 3, 1, 0, 3.0, 0), (7, 3, 1, 1, 0.5, 2.0), (10, 9, 4, 0, None, 1.0), (6, None, 3, 1, None, 0), (5, 5, 2, 2, 1.0, 0.5))], mix=12, ok=lambda n, window, order, deriv, **k: deriv <= order and (window is None or (window > order + 1 and window <= n)))
def savitzky_golay(c, n, window, order, deriv, rate, err):
    t = dates(n, n) - 2002.0
    d = c.reals('d', n, -10, 10)
    d0 = d.copy()
    kw = dict(DATA_ERR=err, DERIV=deriv)
    if window is not None:
        kw['WINDOW'] = window
    if order != 2:
        kw['ORDER'] = order
    if rate is not None:
        kw['RATE'] = rate
    R = c.mod('time_series.savitzky_golay').savitzky_golay(c.arr(t), d, **kw)
    w = window or (order - order % 2 + 3)
    h = w//2
    c.close(R['time'], c.arr(t[h:n-h]), 0, 'dates')
    c.same(len(R['data']), n - 2*h, 'number of dates')
    f = math.factorial(deriv)*(rate or 1.0)**deriv
    for i in range(n - 2*h):
        X = np.array([[(t[i+k] - t[i+h])**o for o in range(order+1)] for k in range(w)])
        G, H = lstsq(X)
        c.close(R['data'][i], apply(c, G[deriv:deriv+1]*f, d0[i:i+w])[0], 1e-5, 'data')
        c.close(R['error'][i], err*f*float(np.sqrt(H[deriv, deriv])), 1e-6, 'error')
    c.close(d, d0, 0, 'input')

@harness('C27', configs=[dict(window=w, order=o) for w, o in ((4, 2), (3, 2), (5, 4), (-3, 0))])
def invalid_windows(c, window, order):
    c.real('unused')
    try:
        c.mod('time_series.savitzky_golay').savitzky_golay(c.arr(np.arange(12.0)), c.reals('d', 12), WINDOW=window, ORDER=order)
        ok = False
    except ValueError:
        ok = True
    c.same(ok, True, 'rejected')

doc('C27', 'any data at listed (irregular) dates for everything linear in the data, any dates for the moving average; amplitudes, phases and confidence bounds for data patterns with any factor; series to 150 months, listed half widths, windows, orders, derivatives')
