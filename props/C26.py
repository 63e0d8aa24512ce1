"""C26 regression of time series"""
import numpy as np
import scipy.stats, scipy.special
from symx.harness import harness, doc

def dates(n, seed=1, gaps=True):
    t, out, rng = 0, [], np.random.default_rng(seed)
    while len(out) < n:
        if not gaps or rng.random() > 0.15:
            out.append(2002.0 + (t + 0.5 + 0.2*(rng.random() - 0.5))/12.0)
        t += 1
    return np.array(out)

def extra(n, k, seed=5):
    return [x for x in np.random.default_rng(seed).standard_normal((k, n))]

def errors(n, zero=None, seed=3):
    e = 0.2 + np.random.default_rng(seed).random(n)
    if zero is not None:
        e[zero] = 0.0
    return e

def design(t, rel, order, cycles, terms, brk=None):
    X = [(t - rel)**o for o in range(order+1)]
    if brk is not None:
        X = [t**0, t, np.maximum(t - brk, 0.0)]
    for y in cycles:
        X += [np.sin(2*np.pi*t/y), np.cos(2*np.pi*t/y)]
    return np.array(X + list(terms)).T

def lstsq(X, w=None):
    """matrix from data to coefficients and unscaled covariance"""
    w = np.ones(len(X)) if w is None else w
    s = np.sqrt(np.sum((X.T*np.sqrt(w))**2, axis=1))
    q, r = np.linalg.qr((X.T*np.sqrt(w)).T/s)
    ri = np.linalg.inv(r)
    G = (ri @ q.T*np.sqrt(w))/s[:, None]
    return G, (ri @ ri.T)/np.outer(s, s)

def apply(c, A, d):
    out = c.zeros(len(A))
    for i, row in enumerate(A):
        s = 0.0
        for a, x in zip(row, d):
            s = s + float(a)*x
        out[i] = s
    return out

def ss(v):
    s = 0.0
    for x in v:
        s = s + x*x
    return s

def tstar(nu, stdev, conf):
    alpha = 1 - scipy.special.erf(stdev/np.sqrt(2.0)) if stdev else (1 - conf if conf else 0.05)
    return scipy.stats.t.ppf(1 - alpha/2, nu)

def compare(c, R, X, d, np_, err, weight, stdev, conf, aicc, brk, scale=None):
    """np_: number of terms of the trend"""
    n, p = X.shape
    if weight:
        e = np.where(err == 0, np.finfo(float).eps, err)
        G, H = lstsq(X, e**-2.0)
    else:
        G, H = lstsq(X)
    beta = apply(c, G, d)
    mod, simple = apply(c, X @ G, d), apply(c, X[:, :np_] @ G[:np_], d)
    out = beta.copy()
    if brk:
        out[2] = beta[1] + beta[2]
    c.close(R['beta'], out, 1e-6, 'coefficients')
    c.close(R['model'], mod, 1e-6, 'model')
    c.close(R['residual'], d - mod, 1e-6, 'residual')
    c.close(R['simple'], simple, 1e-6, 'trend')
    if not brk:
        c.close(R['season'], mod - simple, 1e-6, 'season')
    c.same((int(R['N']), int(R['DOF'])), (p, n - p), 'number of terms and degrees of freedom')
    K = p + 1.0
    if scale is not None:
        c.close(R['AIC'] + 2.0*R['LOGLIK'], 2*K + (2*K*(K+1)/(n - K - 1) if aicc else 0), 1e-7, 'Akaike criterion')
        c.close(R['BIC'] + 2.0*R['LOGLIK'], K*np.log(n), 1e-7, 'Bayesian criterion')
    if not (weight and np.any(err == 0)):
        c.close(c.array(R['cov_mat'])*float(1/np.abs(H).max()), c.arr(H/np.abs(H).max()), 1e-6, 'covariance')
    m = 0.0
    for x in d:
        m = m + x
    m = m/float(n)
    tot, sse = ss([x - m for x in d]), ss(list(d - mod))
    if scale is not None:
        # patterns of data times a factor
        s = scale
        w = np.ones(n) if not weight else e**-2.0
        c.close(R['R2'], 1.0 - (sse/s**2)/(tot/s**2), 1e-6, 'R2')
        c.close(R['R2Adj'], 1.0 - (sse/s**2)/(tot/s**2)*(n - 1.0)/(n - p), 1e-6, 'adjusted R2')
        q = ss([x*float(np.sqrt(y)) for x, y in zip(d - mod, w)])/s**2
        ll = 0.5*(float(np.sum(np.log(w))) - n*(np.log(2*np.pi) + 1 - np.log(n) + c.np.log(q) + 2.0*c.np.log(s)))
        c.close(R['LOGLIK'], ll, 1e-5, 'log likelihood')
    if weight:
        se = np.sqrt(np.sum((G*e)**2, axis=1))
        if brk:
            se[2] = np.hypot(se[1], se[2])
        c.close(R['error'], c.arr(se), 1e-6, 'propagated error')
        return
    c.close(c.array(R['MSE'])*(n - p), sse, 1e-6, 'mean square error')
    se = np.sqrt(np.diag(H))
    if brk:
        se[2] = np.hypot(se[1], se[2])
    if err != 0:
        c.close(R['error'], abs(err)*c.arr(se), 1e-6, 'propagated error')
    elif scale is not None:
        rm = c.np.sqrt(sse/s**2/float(n - p))
        c.close(c.array(R['std_err'])/s, c.arr(se)*rm, 1e-6, 'standard error')
        c.close(c.array(R['error'])/s, c.arr(se)*rm*tstar(n - p, stdev, conf), 1e-6, 'error')
        x = list(d/s)
        c.close(R['NRMSE'], rm/(max(x) - min(x)), 1e-6, 'normalised error')
    else:
        for i in range(p):
            c.close(c.array(R['std_err'])[i]**2*(n - p), sse*float(se[i]**2), 1e-6, 'standard error')
            c.close(c.array(R['error'])[i]**2*(n - p), sse*float((se[i]*tstar(n - p, stdev, conf))**2), 1e-5, 'error')

def data(c, n, mode, seed):
    if mode == 'any':
        return c.reals('d', n, -10, 10), None
    s = c.real('s', 0.5, 4)
    return c.arr(np.random.default_rng(seed).standard_normal(n) + 0.3*np.arange(n))*s, s

RC = [dict(n=n, order=o, cycles=cy, terms=k, err=e, weight=w, rel=r, stdev=sd, conf=cf, aicc=a, mode=m) for n, o, cy, k, e, w, r, sd, cf, a, m in (
    (12, 1, None, 0, 0, False, None, 0, 0, True, 'any'), (12, 1, None, 0, 0, False, None, 0, 0, True, 'scaled'), (10, 0, [], 0, 0.3, False, 2003.0, 0, 0, False, 'any'), (11, 2, [1.0], 1, 0, False, [0, 2, 3], 2, 0, None, 'scaled'),
    (12, 1, [1.0], 0, 'array', True, None, 0, 0, True, 'any'), (12, 2, [0.5, 1.0], 0, 'array', True, 2002, 0, 0, False, 'scaled'), (9, 1, [], 2, 0, False, None, 0, 0.68, True, 'scaled'), (13, 3, [1.0, 0.44], 0, 1.5, False, None, 0, 0, True, 'scaled'),
    (8, 1, [], 0, 0, False, 2002.5, 1, 0, True, 'any'), (8, 0, [], 0, 'zero', True, None, 0, 0, True, 'any'), (10, 1, [0.5], 0, 2.0, False, None, 0, 0, None, 'any'), (7, 1, [], 0, 'array', True, [1, 2], 0, 0, True, 'scaled'))]

RC += [dict(n=n, order=o, cycles=cy, terms=k, err=e, weight=w, rel=None, stdev=0, conf=0, aicc=True, mode='scaled') for n, o, cy, k, e, w in ((240, 2, None, 2, 0, False), (200, 1, None, 0, 'array', True), (163, 1, [0.5, 1.0, 161.0/365.25], 0, 0, False))]

@harness('C26', configs=RC, thorough=[dict(n=60, order=2, cycles=None, terms=2, err=e, weight=w, rel=None, stdev=0, conf=0, aicc=True, mode=m) for e, w, m in ((0, False, 'scaled'), (0.2, False, 'any'), ('array', True, 'any'))], mix=16, ok=lambda order, cycles, terms, err, weight, rel, n, mode, aicc, **k: (mode == 'scaled' or (order < 3 and n < 20)) and isinstance(err, str) == weight and (err != 'zero' or (order == 0 and not terms and cycles == [])) and not isinstance(rel, list) and n > order + 1 + 2*(aicc is not False) + terms + 2*len([0.5, 1.0] if cycles is None else cycles))
def polynomial(c, n, order, cycles, terms, err, weight, rel, stdev, conf, aicc, mode):
    t = dates(n, n)
    d, s = data(c, n, mode, n)
    d0 = d.copy()
    e = errors(n, 3 if err == 'zero' else None) if isinstance(err, str) else err
    T = extra(n, terms)
    kw = dict(ORDER=order, DATA_ERR=c.arr(e) if weight else e, WEIGHT=weight, STDEV=stdev, CONF=conf, TERMS=[c.arr(x) for x in T])
    if cycles is not None:
        kw['CYCLES'] = cycles
    if rel is not None:
        kw['RELATIVE'] = rel
    if aicc is not None:
        kw['AICc'] = aicc
    tt = c.arr(t)
    R = c.mod('time_series.regress').regress(tt, d, **kw)
    r = t.mean() if rel is None else (t[rel].mean() if isinstance(rel, list) else rel)
    X = design(t, r, order, [0.5, 1.0] if cycles is None else cycles, T)
    compare(c, R, X, d0, order+1, e, weight, stdev, conf, aicc in (True, None), False, s)
    c.close(d, d0, 0, 'data')
    c.close(tt, c.arr(t), 0, 'dates')
    if weight:
        c.close(kw['DATA_ERR'], c.arr(e), 0, 'data errors')

PC = [dict(n=n, brk=b, cycles=cy, terms=k, err=e, weight=w, stdev=sd, conf=cf, aicc=a, mode=m) for n, b, cy, k, e, w, sd, cf, a, m in (
    (12, 5, None, 0, 0, False, 0, 0, True, 'any'), (12, 7, [1.0], 0, 0, False, 0, 0, False, 'scaled'), (12, 2002.41, [1.0], 0, 0, False, 2, 0, None, 'scaled'), (11, 2002.6, [], 1, 0.4, False, 0, 0, True, 'any'), (11, 2002.33, [], 0, 'array', True, 0, 0, True, 'any'),
    (10, 3, [1.0], 0, 'array', True, 0, 0, False, 'scaled'), (12, 2002.5, [], 0, 2.0, False, 0, 0, None, 'scaled'), (9, 4, [], 0, 0, False, 0, 0.9, True, 'scaled'), (9, 'exact', [], 0, 0, False, 0, 0, True, 'any'))]

PC += [dict(n=n, brk=b, cycles=None, terms=0, err=0, weight=False, stdev=0, conf=0, aicc=True, mode='scaled') for n, b in ((180, 150), (204, 2017.91))]

@harness('C26', configs=PC, thorough=[dict(n=48, brk=b, cycles=None, terms=1, err=0, weight=False, stdev=0, conf=0, aicc=True, mode='scaled') for b in (20, 2003.77, 2004.51)], mix=8, ok=lambda n, brk, err, weight, terms, **k: isinstance(err, str) == weight and err != 'zero' and n in (11, 12) and (brk < n - 2 if isinstance(brk, int) else brk != 'exact' and brk < 2003 and k['cycles'] == []))
def breakpoints(c, n, brk, cycles, terms, err, weight, stdev, conf, aicc, mode):
    t = dates(n, n) - 2002.0
    d, s = data(c, n, mode, n)
    d0 = d.copy()
    e = errors(n, 3 if err == 'zero' else None) if isinstance(err, str) else err
    T = extra(n, terms)
    kw = dict(DATA_ERR=c.arr(e) if weight else e, WEIGHT=weight, STDEV=stdev, CONF=conf, TERMS=[c.arr(x) for x in T])
    if cycles is not None:
        kw['CYCLES'] = cycles
    if aicc is not None:
        kw['AICc'] = aicc
    if isinstance(brk, int):
        kw['BREAKPOINT'] = brk
        b = t[brk]
    else:
        kw['BREAK_TIME'] = b = t[4] if brk == 'exact' else brk - 2002.0
    R = c.mod('time_series.piecewise').piecewise(c.arr(t), d, **kw)
    X = design(t, 0.0, 1, [0.5, 1.0] if cycles is None else cycles, T, brk=b)
    compare(c, R, X, d0, 3, e, weight, stdev, conf, bool(aicc), True, s)
    c.close(d, d0, 0, 'data')
    if weight:
        c.close(kw['DATA_ERR'], c.arr(e), 0, 'data errors')

@harness('C26', configs=[dict(n=n) for n in (None, 3)])
def amplitude(c, n):
    a, b = (c.reals('s', n, -5, 5), c.reals('c', n, -5, 5)) if n else (c.real('s', -5, 5), c.real('c', -5, 5))
    A, P = c.mod('time_series.amplitude').amplitude(a, b)
    c.close(c.array(A)**2, a*a + b*b, 1e-9, 'amplitude')
    c.true(c.array(A) >= 0, 'sign')
    r = c.real('r', 0.1, 5)
    for g in (0.0, 30.0, 90.0, 135.0, 180.0, -45.0, -120.0):
        # in phase with amplitude sin(x + phase)
        A, P = c.mod('time_series.amplitude').amplitude(r*float(np.cos(np.radians(g))), r*float(np.sin(np.radians(g))))
        c.close(A, r, 1e-9, 'amplitude')
        c.close(P, g, 1e-9, 'phase')

@harness('C26', configs=[dict(n=n, period=p) for n, p in ((1, 161.0), (4, None), (3, 3.7*365.25))])
def aliasing(c, n, period):
    t = c.zeros(n)
    for i in range(n):
        t[i] = c.real(f't{i}', 2002 + 5*i, 2008 + 5*i)
    kw = {} if period is None else dict(period=period)
    T = c.mod('time_series.fit').aliasing_terms(t, **kw)
    c.same(len(T), 4, 'terms')
    for i in range(n):
        x = 2*np.pi*t[i]*365.25/(period or 161.0)
        early = c.pick(t[i] < 2018)
        for k, v in enumerate((c.np.sin(x), c.np.cos(x))):
            c.close(T[k][i], v if early else 0.0, 1e-9, 'GRACE')
            c.close(T[k+2][i], 0.0 if early else v, 1e-9, 'GRACE-FO')

doc('C26', 'any data at listed (irregular) dates of series to 240 months for everything linear or quadratic in the data; the ratios, logarithms and confidence bounds for data patterns with any factor in [0.5,4]; listed orders, cycles, extra terms, breakpoints and uncertainties')
