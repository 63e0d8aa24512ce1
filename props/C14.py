"""C14 structure of harmonics objects"""
import numpy as np
from symx.harness import harness, doc
from props.hutil import *

D = [dict(L=L, M=M, n=n) for L, M, n in ((2, 2, None), (3, 1, None), (2, 0, 2), (3, 3, 3), (0, 0, None), (4, 2, 1), (1, 1, 4), (5, 3, 2))]
# sizes of monthly solutions
BIG = [dict(L=40, M=30, n=None), dict(L=1, M=1, n=40), dict(L=20, M=20, n=2)]

@harness('C14', configs=[dict(l=l, lmin=mi, m=m, **d) for i, d in enumerate(D) for l, mi, m in ((2, 0, None), (1, 1, 0), (4, 2, 3), (3, 0, 1), (0, 0, None), (None, 0, None))][:40] + [dict(l=60, lmin=0, m=None, **BIG[0]), dict(l=30, lmin=2, m=25, **BIG[0]), dict(l=12, lmin=3, m=None, **BIG[2])], mix=24)
def truncate(c, L, M, n, l, lmin, m):
    X = harm(c, 'a', L, M, n)
    x = keep(X)
    kw = {} if m is None else dict(mmax=m)
    R = X.truncate(l, lmin=lmin, **kw)
    nl = L if l is None else l
    nm = nl if m is None else m
    tail = () if n is None else (n,)
    eC, eS = c.zeros((nl+1, nm+1) + tail), c.zeros((nl+1, nm+1) + tail)
    for i in range(lmin, min(nl, L)+1):
        for j in range(min(nm, M)+1):
            eC[i, j], eS[i, j] = x[0][i, j], x[1][i, j]
    c.same(R is X, True, 'changes the object itself')
    c.close(X.clm, eC, 0, 'cosine')
    c.close(X.slm, eS, 0, 'sine')
    c.same((int(X.lmax), int(X.mmax), len(X.l), len(X.m)), (nl, nm, nl+1, nm+1), 'degree and order')

@harness('C14', configs=D + BIG, mix=12)
def flatten_expand(c, L, M, n):
    X = harm(c, 'a', L, M, n)
    x, s0 = keep(X), snap(c, X)
    F = X.flatten()
    pairs = [(l, m) for m in range(M+1) for l in range(m, L+1)]
    c.same(len(F.l), len(pairs), 'number of coefficients')
    c.same(sorted((int(a), int(b)) for a, b in zip(F.l, F.m)), sorted(pairs), 'degrees and orders')
    for i, (a, b) in enumerate(zip(F.l, F.m)):
        c.close(F.clm[i], x[0][int(a), int(b)], 0, 'cosine')
        c.close(F.slm[i], x[1][int(a), int(b)], 0, 'sine')
    c.close(c.array(F.time), c.array(X.time), 0, 'time')
    R = F.expand()
    c.close(R.clm, x[0], 0, 'cosine expanded')
    c.close(R.slm, x[1], 0, 'sine expanded')
    c.close(c.array(R.time), c.array(X.time), 0, 'time')
    c.close(c.array(R.month), c.array(X.month), 0, 'month')
    c.same((int(R.lmax), int(R.mmax)), (L, M), 'degree and order')
    spoil(R)
    G = F.copy()
    for H in (G, F):
        H.expand_dims()
        if n is None:
            H.squeeze()
        H = H.expand()
        c.close(H.clm, x[0], 0, 'cosine of the copy')
        c.close(H.slm, x[1], 0, 'sine of the copy')
    spoil(G)
    c.close(F.expand().clm, x[0], 0, 'copy is independent')
    spoil(F)
    unchanged(c, X, s0, 'original unchanged')
    F = X.flatten(date=False).expand(date=False)
    c.close(F.clm, x[0], 0, 'without dates')
    if n is None:
        F = X.flatten()
        F.expand_dims(update_dimensions=False)
        c.same((F.clm.shape, F.slm.shape), ((len(pairs), 1), (len(pairs), 1)), 'flattened with a month')
        for i, (a, b) in enumerate(zip(F.l, F.m)):
            c.close(F.clm[i, 0], x[0][int(a), int(b)], 0, 'cosine of the month')
            c.close(F.slm[i, 0], x[1][int(a), int(b)], 0, 'sine of the month')

@harness('C14', configs=[d for d in D if d['n'] is None or d['n'] == 1], mix=16)
def dimensions(c, L, M, n):
    for upd in (True, False):
        X = harm(c, 'a', L, M, None)
        x = keep(X)
        t, mo = np.float64(X.time), int(X.month)
        X.expand_dims(update_dimensions=upd)
        c.same((X.clm.shape, X.slm.shape, len(X.time), len(X.month)), ((L+1, M+1, 1), (L+1, M+1, 1), 1, 1), 'expanded')
        c.close(X.clm[:, :, 0], x[0], 0, 'expanded')
        c.close(X.slm[:, :, 0], x[1], 0, 'expanded')
        X.expand_dims(update_dimensions=upd)
        c.same(X.clm.shape, (L+1, M+1, 1), 'expanded twice')
        X.squeeze(update_dimensions=upd)
        c.close(X.clm, x[0], 0, 'squeezed')
        c.close(X.slm, x[1], 0, 'squeezed')
        c.close(X.time, t, 0, 'time')
        c.close(X.month, mo, 0, 'month')
        X.squeeze(update_dimensions=upd)
        c.same((X.clm.shape, X.slm.shape), ((L+1, M+1), (L+1, M+1)), 'squeezed twice')
        X = harm(c, 'a', L, M, 2)
        x = keep(X)
        X.squeeze(update_dimensions=upd)
        c.close(X.clm, x[0], 0, 'series is not squeezed')

@harness('C14', configs=[d for d in D + BIG if d['n']], mix=16)
def select(c, L, M, n):
    """index, subset and iteration give the months they are asked for"""
    X = harm(c, 'a', L, M, n)
    X.filename = [f'/data/f{i}' for i in range(n)]
    x, s0 = keep(X), snap(c, X)
    months, time = [int(v) for v in X.month], [float(v) for v in X.time]
    for i in range(-n, n):
        R = X.index(i)
        c.close(R.clm, x[0][:, :, i], 0, 'index cosine')
        c.close(R.slm, x[1][:, :, i], 0, 'index sine')
        c.same((int(R.month), float(R.time), R.filename), (months[i], time[i], f'/data/f{i % n}'), 'index date')
        spoil(R)
        unchanged(c, X, s0, 'independent')
    sel = [[0], list(range(n)), [n-1], list(range(0, n, 2)), [0, 0, n-1], list(range(n))[::-1]]
    for s in sel:
        R = X.subset(months[s[0]] if s == [n-1] else [months[i] for i in s])
        k = sorted(set(s))
        e = [(a[:, :, k[0]] if len(k) == 1 else c.array([[[a[l, m, j] for j in k] for m in range(M+1)] for l in range(L+1)])) for a in x]
        c.close(R.clm, e[0], 0, 'subset cosine')
        c.close(R.slm, e[1], 0, 'subset sine')
        c.close(c.array(R.month), c.arr([months[j] for j in k] if len(k) > 1 else months[k[0]]), 0, 'subset month')
        c.close(c.array(R.time), c.arr([time[j] for j in k] if len(k) > 1 else time[k[0]]), 0, 'subset time')
        c.same(R.filename, [f'/data/f{j}' for j in k], 'subset files')
        spoil(R)
        unchanged(c, X, s0, 'independent')
    try:
        X.subset([months[0], 999])
        c.same(1, 0, 'missing month accepted')
    except IOError:
        pass
    for k in range(2):
        got = [(Y.clm, Y.slm, int(Y.month), float(Y.time), Y.filename) for Y in X]
        c.same(len(got), n, 'number of months')
        for i, (a, b, m, t, f) in enumerate(got):
            c.close(a, x[0][:, :, i], 0, 'iteration')
            c.close(b, x[1][:, :, i], 0, 'iteration')
            c.same((m, t, f), (months[i], time[i], f'/data/f{i}'), 'iteration date')
    for Y in X:
        spoil(Y)
    unchanged(c, X, s0, 'iteration is independent')
    c.same(len(X), n, 'length')
    c.same(str(X).split('\n')[1:], [f'    max_degree: {L}'] + ([f'    max_order: {M}'] if M and M != L else [])
        + [f'    start_month: {min(months)}', f'    end_month: {max(months)}'], 'description')

@harness('C14', configs=D + BIG, mix=16)
def copies(c, L, M, n):
    X = harm(c, 'a', L, M, n)
    X.filename = 'file'
    X.attributes['ROOT'] = dict(title='x')
    x, s0 = keep(X), snap(c, X)
    R = X.copy()
    c.close(R.clm, x[0], 0, 'copy')
    c.close(R.slm, x[1], 0, 'copy')
    c.close(c.array(R.time), c.array(X.time), 0, 'time')
    c.close(c.array(R.month), c.array(X.month), 0, 'month')
    c.same((int(R.lmax), int(R.mmax), R.filename, R.attributes['ROOT']['title']), (L, M, 'file', 'x'), 'attributes')
    R.scale(2.0)
    R.add(X)
    spoil(R)
    R.filename = 'other'
    unchanged(c, X, s0, 'copy is independent')
    Z = X.zeros_like()
    c.close(Z.clm, 0*x[0], 0, 'zeros')
    c.close(Z.slm, 0*x[1], 0, 'zeros')
    c.same((int(Z.lmax), int(Z.mmax)), (L, M), 'zeros')
    kw = {} if n is None else dict(nt=n)
    Z = c.gt.harmonics().zeros(lmax=L, mmax=M, **kw)
    c.close(Z.clm, 0*x[0], 0, 'zeros')
    c.close(Z.slm, 0*x[1], 0, 'zeros')
    Y = c.gt.harmonics().from_dict(X.to_dict())
    c.close(Y.clm, x[0], 0, 'dictionary')
    c.close(Y.slm, x[1], 0, 'dictionary')
    c.close(c.array(Y.time), c.array(X.time), 0, 'dictionary')
    c.close(c.array(Y.month), c.array(X.month), 0, 'dictionary')
    c.same((int(Y.lmax), int(Y.mmax)), (L, M), 'dictionary')

@harness('C14', configs=[dict(order=o, sort=s, date=d, single=1 if i % 2 else 0) for i, (o, s, d) in enumerate(((o, s, d) for o in ((0, 1, 2), (2, 0, 1), (1,), (3, 1, 2, 0)) for s, d in ((True, True), (False, True), (True, False))))], mix=16)
def from_list(c, order, sort, date, single):
    """a series assembled from single months, in order of time when asked"""
    dims = [(2, 2), (3, 1), (2, 2), (4, 3)]
    H = []
    for i in order:
        Y = harm(c, f'a{i}', *dims[i], nt=1 if single else None, start=i)
        if single:
            Y.clm, Y.slm = Y.clm[:, :, 0], Y.slm[:, :, 0]
        Y.filename = f'file{i}'
        H.append(Y)
    ks, ss = [keep(Y) for Y in H], [snap(c, Y) for Y in H]
    R = c.gt.harmonics().from_list(H, sort=sort, date=date)
    L, M = min(dims[i][0] for i in order), min(dims[i][1] for i in order)
    pos = sorted(range(len(order)), key=lambda k: order[k]) if sort and date else list(range(len(order)))
    c.same((int(R.lmax), int(R.mmax), R.clm.shape), (L, M, (L+1, M+1, len(order))), 'shape')
    for t, k in enumerate(pos):
        c.close(R.clm[:, :, t], ks[k][0][:L+1, :M+1], 0, 'cosine')
        c.close(R.slm[:, :, t], ks[k][1][:L+1, :M+1], 0, 'sine')
        c.same(R.filename[t], f'file{order[k]}', 'file')
        if date:
            m, tm = month_time(1, order[k])
            c.close(R.month[t], m[0], 0, 'month')
            c.close(R.time[t], tm[0], 0, 'time')
    spoil(R)
    for Y, s in zip(H, ss):
        unchanged(c, Y, s, 'independent')

@harness('C14', configs=[dict(L=L, M=M, n=n, how=h) for L, M, n, h in ((3, None, None, 'set'), (2, 1, 1, 'set'), (4, 2, 3, 'given'), (3, 3, 2, 'own'), (2, None, 4, 'given'))], mix=12)
def zeros(c, L, M, n, how):
    """objects of zeros take the coefficients and dates put into them"""
    Mx = L if M is None else M
    kw = {} if n is None else dict(nt=n)
    if how == 'given':
        R = c.gt.harmonics().zeros(lmax=L, mmax=M, **kw)
    else:
        R = c.gt.harmonics(lmax=L, mmax=Mx).zeros(**kw)
    sh = (L+1, Mx+1) + (() if n is None else (n,))
    c.same((int(R.lmax), int(R.mmax), tuple(R.clm.shape), tuple(R.slm.shape)), (L, Mx, sh, sh), 'shape')
    c.close(R.clm, c.zeros(sh), 0, 'cosine')
    c.close(R.slm, c.zeros(sh), 0, 'sine')
    c.same(([int(x) for x in R.l], [int(x) for x in R.m]), (list(range(L+1)), list(range(Mx+1))), 'degrees and orders')
    X = harm(c, 'x', L, M, n)
    if n:
        c.close(R.month, c.zeros(n), 0, 'months')
        for t in range(n):
            R.month[t], R.time[t] = X.month[t], X.time[t]
            R.clm[:, :, t] = X.clm[:, :, t]
            R.slm[:, :, t] = X.slm[:, :, t]
        c.close(R.month, X.month, 0, 'months set')
        c.close(R.time, X.time, 0, 'dates set')
    else:
        R.add(X)
    c.close(R.clm, X.clm, 0, 'cosine set')
    c.close(R.slm, X.slm, 0, 'sine set')

@harness('C14', configs=D + BIG, mix=16)
def masked_array(c, L, M, n):
    """cosines right, sines left of the middle column, the rest masked"""
    X = harm(c, 'a', L, M, n)
    x, s0 = keep(X), snap(c, X)
    R = X.to_masked_array()
    nt = n or 1
    e = np.ones((L+1, 2*L+1, nt), dtype=bool)
    for l in range(L+1):
        for m in range(min(l, M)+1):
            for t in range(nt):
                k = (l, m) if n is None else (l, m, t)
                c.close(R.data[l, L+m, t], x[0][k], 0, 'cosine')
                e[l, L+m, t] = False
                if m:
                    c.close(R.data[l, L-m, t], x[1][k], 0, 'sine')
                    e[l, L-m, t] = False
    c.close(c.array(R.mask), c.array(e), 0, 'mask')
    unchanged(c, X, s0, 'original unchanged')

doc('C14', 'all coefficients in [-10,10]; degrees to 5, orders truncated or not, single fields and series of up to 4 months; degrees to 40 and series to 40 months')
