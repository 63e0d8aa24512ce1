"""C16 operations on gridded fields"""
import numpy as np
from symx.harness import harness, doc
from props.hutil import *

D2 = [(2, 3, None, None), (3, 2, None, 'some'), (3, 3, None, 'some'), (9, 18, None, 'some')]
D3 = [(2, 3, 2, None), (3, 2, 3, 'some'), (2, 4, 2, 'month'), (2, 2, 1, 'some'), (3, 3, 3, 'some'), (2, 3, 4, 'some'), (2, 3, 40, 'month')]
DD = [dict(ny=a, nx=b, nt=n, mask=k) for a, b, n, k in D2 + D3]
DT = [d for d in DD if d['nt']]

def dates(c, R, X, label='dates'):
    c.close(c.array(R.time), c.array(X.time), 0, label)
    c.close(c.array(R.month), c.array(X.month), 0, label)

def coords(c, R, X):
    c.close(R.lon, X.lon, 0, 'longitude')
    c.close(R.lat, X.lat, 0, 'latitude')

AF = [(o, v, d) for d in DD for o in ('offset', 'scale') for v in ('scalar', 'series', 'map', 'cube') if d['nt'] or v != 'cube']

@harness('C16', configs=[dict(op=o, var=v, error=False, **d) for o, v, d in AF] + [dict(op=o, var=v, error=True, **d) for o, v, d in AF if d in (DD[1], DD[4])], mix=24, ok=lambda var, nt, **k: nt or var != 'cube')
def affine(c, op, var, error, ny, nx, nt, mask):
    X = grid(c, 'a', ny, nx, nt, mask, error=error)
    err = X.error.copy() if error else None
    s = snap(c, X)
    x, m = X.data.copy(), holes(x_shape(ny, nx, nt), mask)
    nv = nt or 3
    v = dict(scalar=lambda: c.real('v', -5, 5), series=lambda: c.reals('v', nv, -5, 5), map=lambda: c.reals('v', (ny, nx), -5, 5),
        cube=lambda: c.reals('v', (ny, nx, nv), -5, 5))[var]()
    R = getattr(X, op)(v)
    f = (lambda p, q: p + q) if op == 'offset' else (lambda p, q: p*q)
    sh = (ny, nx) if (nt is None and var != 'series') else (ny, nx, nv)
    e, em = c.zeros(sh), np.zeros(sh, dtype=bool)
    er = c.zeros(sh) if error else None
    for i in np.ndindex(*sh):
        k = i if nt else i[:2]
        if error:
            er[i] = err[k]
        w = dict(scalar=lambda: v, series=lambda: v[i[2]], map=lambda: v[i[:2]], cube=lambda: v[i])[var]()
        e[i], em[i] = f(x[k], w), m[k]
    check_grid(c, R, e, em, 'result', error=er)
    coords(c, R, X)
    dates(c, R, X)
    spoil(R)
    unchanged(c, X, s, 'original unchanged')

def x_shape(ny, nx, nt):
    return (ny, nx) if nt is None else (ny, nx, nt)

@harness('C16', configs=[dict(op=o, **d) for d in DT for o in ('sum', 'sum2', 'max', 'min')] + [dict(op=f'power{p}', **d) for d in DD for p in (2, 3)], mix=16, ok=lambda op, nt, **k: nt or op.startswith('power'))
def reductions(c, op, ny, nx, nt, mask):
    X = grid(c, 'a', ny, nx, nt, mask)
    s = snap(c, X)
    x, m = X.data.copy(), holes(x_shape(ny, nx, nt), mask)
    if op.startswith('power'):
        p = int(op[5:])
        R = X.power(p)
        check_grid(c, R, x**p, m, 'power')
        dates(c, R, X)
    else:
        R = X.sum(power=2) if op == 'sum2' else getattr(X, op)()
        e, em = c.zeros((ny, nx)), m.any(axis=2)
        for i in np.ndindex(ny, nx):
            v = [x[i + (t,)] for t in range(nt)]
            if op in ('max', 'min'):
                if em[i]:
                    continue
                r = R.data[i]
                for y in v:
                    c.true(r >= y if op == 'max' else r <= y, op)
                q = r == v[0]
                for y in v[1:]:
                    q = q | (r == y)
                c.true(q, 'is one of the values')
                e[i] = r
            else:
                e[i] = sum(y**2 for y in v) if op == 'sum2' else sum(v)
        check_grid(c, R, e, em, op)
    coords(c, R, X)
    spoil(R)
    unchanged(c, X, s, 'original unchanged')

@harness('C16', configs=[dict(apply=a, ind=i, **d) for d in DT for a in (False, True) for i in (None, 'last', 'slice') if i is None or d['nt'] > 2], mix=12, ok=lambda ind, nt, **k: ind is None or nt > 2)
def mean(c, apply, ind, ny, nx, nt, mask):
    X = grid(c, 'a', ny, nx, nt, mask)
    s = snap(c, X)
    x, m = X.data.copy(), holes((ny, nx, nt), mask)
    ii = {None: range(nt), 'last': [nt-1, 0], 'slice': range(1, nt)}[ind]
    kw = {} if ind is None else dict(indices=np.array(ii) if ind == 'last' else slice(1, nt))
    R = X.mean(apply=apply, **kw)
    e, em = c.zeros((ny, nx)), np.zeros((ny, nx), dtype=bool)
    for i in np.ndindex(ny, nx):
        e[i] = sum(x[i + (t,)] for t in ii)/len(ii)
        em[i] = any(m[i + (t,)] for t in ii)
    check_grid(c, R, e, em, 'mean')
    c.close(R.time, sum(X.time[t] for t in ii)/len(ii), 1e-9, 'mean time')
    coords(c, R, X)
    if not apply:
        spoil(R)
        unchanged(c, X, s, 'original unchanged')
        return
    a, am = c.zeros((ny, nx, nt)), np.zeros((ny, nx, nt), dtype=bool)
    for i in np.ndindex(ny, nx, nt):
        a[i] = x[i] - e[i[:2]]
        am[i] = m[i] or em[i[:2]]
    check_grid(c, X, a, am, 'mean removed')

@harness('C16', configs=[dict(axis=a, error=(i % 2 == 0), **d) for i, d in enumerate(DD) for a in (0, 1, 2) if d['nt'] or a < 2], mix=16, ok=lambda axis, nt, **k: nt or axis < 2)
def flip(c, axis, error, ny, nx, nt, mask):
    X = grid(c, 'a', ny, nx, nt, mask, error=error)
    names = [f'file{k}' for k in range(nt or 0)]
    if nt:
        X.filename = list(names)
    s, x, m = snap(c, X), X.data.copy(), holes(x_shape(ny, nx, nt), mask)
    err = X.error.copy() if error else None
    R = X.flip(axis=axis)
    if nt:
        c.same(list(R.filename), names[::-1] if axis == 2 else names, 'files')
    sl = tuple(slice(None, None, -1) if k == axis else slice(None) for k in range(m.ndim))
    check_grid(c, R, x[sl], m[sl], 'flipped', error=err[sl] if error else None)
    c.close(R.lat, X.lat[::-1] if axis == 0 else X.lat, 0, 'latitude')
    c.close(R.lon, X.lon[::-1] if axis == 1 else X.lon, 0, 'longitude')
    if nt:
        c.close(R.time, X.time[::-1] if axis == 2 else X.time, 0, 'time')
        c.close(R.month, X.month[::-1] if axis == 2 else X.month, 0, 'month')
    spoil(R)
    unchanged(c, X, s, 'original unchanged')

@harness('C16', configs=[dict(axes=a, **d) for d in DD for a in ((None, (1, 0)) if not d['nt'] else (None, (1, 0, 2), (2, 0, 1)))], mix=16, ok=lambda axes, nt, **k: axes is None or len(axes) == (3 if nt else 2))
def transpose(c, axes, ny, nx, nt, mask):
    X = grid(c, 'a', ny, nx, nt, mask, error=True)
    s, m = snap(c, X), holes(x_shape(ny, nx, nt), mask)
    x, err = X.data.copy(), X.error.copy()
    R = X.transpose(axes=axes)
    ax = tuple(range(m.ndim))[::-1] if axes is None else axes
    inv = [ax.index(k) for k in range(m.ndim)]
    e, er, em = c.zeros([m.shape[k] for k in ax]), c.zeros([m.shape[k] for k in ax]), np.transpose(m, ax)
    for i in np.ndindex(*em.shape):
        e[i], er[i] = x[tuple(i[k] for k in inv)], err[tuple(i[k] for k in inv)]
    check_grid(c, R, e, em, 'transposed', error=er)
    spoil(R)
    unchanged(c, X, s, 'original unchanged')

@harness('C16', configs=[dict(error=(i % 2 == 1), **d) for i, d in enumerate(DD)], mix=16)
def extend(c, error, ny, nx, nt, mask):
    """one column added on each side of a global grid"""
    X = grid(c, 'a', ny, nx, nt, mask, error=error, dlon=360.0/nx, dlat=25.0)
    s, m = snap(c, X), holes(x_shape(ny, nx, nt), mask)
    x = X.data.copy()
    err = X.error.copy() if error else None
    R = X.extend_matrix()
    k = [nx-1] + list(range(nx)) + [0]
    c.close(R.lon, c.array([X.lon[0] - 360.0/nx] + [X.lon[i] for i in range(nx)] + [X.lon[nx-1] + 360.0/nx]), 1e-9, 'longitude')
    c.close(R.lat, X.lat, 0, 'latitude')
    check_grid(c, R, x[:, k], m[:, k], 'extended', error=err[:, k] if error else None)
    spoil(R)
    unchanged(c, X, s, 'original unchanged')

@harness('C16', configs=[dict(error=(i % 2 == 1), **d) for i, d in enumerate(DD)], mix=16)
def dimensions(c, error, ny, nx, nt, mask):
    X = grid(c, 'a', ny, nx, nt, mask, error=error)
    x, m = X.data.copy(), holes(x_shape(ny, nx, nt), mask)
    err = X.error.copy() if error else None
    t, mo = c.array(X.time), c.array(X.month)
    for k in range(2):
        X.expand_dims()
        c.same(X.shape, (ny, nx, nt or 1), 'expanded')
        sh = X.shape
        check_grid(c, X, x.reshape(sh), m.reshape(sh), 'expanded', error=err.reshape(sh) if error else None)
        c.same((len(X.time), len(X.month)), (nt or 1,)*2, 'dates')
    X.squeeze()
    sh = (ny, nx) if nt in (None, 1) else (ny, nx, nt)
    check_grid(c, X, x.reshape(sh), m.reshape(sh), 'squeezed', error=err.reshape(sh) if error else None)
    c.close(c.array(X.time).reshape(-1), t.reshape(-1), 0, 'time')
    c.close(c.array(X.month).reshape(-1), mo.reshape(-1), 0, 'month')

@harness('C16', configs=[dict(error=e, **d) for d in DT for e in (False, True)], mix=24)
def select(c, error, ny, nx, nt, mask):
    """index, subset and iteration"""
    X = grid(c, 'a', ny, nx, nt, mask, error=error)
    X.filename = [f'/data/f{i}' for i in range(nt)]
    s, m = snap(c, X), holes((ny, nx, nt), mask)
    x = X.data.copy()
    err = X.error.copy() if error else None
    months, time = [int(v) for v in X.month], [float(v) for v in X.time]
    def one(R, i, label):
        check_grid(c, R, x[:, :, i], m[:, :, i], label, error=err[:, :, i] if error else None)
        coords(c, R, X)
        c.same((int(R.month), float(R.time), R.filename), (months[i], time[i], f'/data/f{i}'), label + ': date')
    for i in list(range(nt)) + [-1]:
        R = X.index(i)
        one(R, i % nt, 'index')
        spoil(R)
        unchanged(c, X, s, 'independent')
    for sel in ([0], list(range(nt)), [nt-1, 0], [0, 0]):
        R = X.subset([months[i] for i in sel])
        k = sorted(set(sel))
        if len(k) == 1:
            check_grid(c, R, x[:, :, k[0]], m[:, :, k[0]], 'subset', error=err[:, :, k[0]] if error else None)
        else:
            check_grid(c, R, x[:, :, k], m[:, :, k], 'subset', error=err[:, :, k] if error else None)
        c.close(c.array(R.month).reshape(-1), c.arr([months[j] for j in k]), 0, 'subset month')
        c.close(c.array(R.time).reshape(-1), c.arr([time[j] for j in k]), 0, 'subset time')
        c.same(R.filename, [f'/data/f{j}' for j in k], 'subset files')
        coords(c, R, X)
        spoil(R)
        unchanged(c, X, s, 'independent')
    try:
        X.subset([999])
        c.same(1, 0, 'missing month accepted')
    except IOError:
        pass
    for k in range(2):
        n = 0
        for i, Y in enumerate(X):
            one(Y, i, 'iteration')
            spoil(Y)
            n += 1
        c.same(n, nt, 'number of months')
    unchanged(c, X, s, 'independent')
    c.same((len(X), X.ndim, X.shape), (nt, 3, (ny, nx, nt)), 'dimensions')
    c.close(c.array(X.extent), c.arr([5.0, 5.0 + 20*(nx-1), 60.0 - 10*(ny-1), 60.0]), 1e-9, 'extent')
    c.close(c.array(X.spacing), c.arr([20.0, 10.0]), 1e-9, 'spacing')

@harness('C16', configs=[dict(error=(i % 2 == 0), **d) for i, d in enumerate(DD)], mix=16)
def copies(c, error, ny, nx, nt, mask):
    X = grid(c, 'a', ny, nx, nt, mask, error=error)
    X.filename = 'file'
    s, x, m = snap(c, X), X.data.copy(), holes(x_shape(ny, nx, nt), mask)
    err = X.error.copy() if error else None
    R = X.copy()
    check_grid(c, R, x, m, 'copy', error=err)
    dates(c, R, X)
    coords(c, R, X)
    c.same((R.filename, R.fill_value), ('file', FILL), 'copy')
    spoil(R)
    unchanged(c, X, s, 'copy is independent')
    R = X.zeros_like()
    c.close(R.data, 0*x, 0, 'zeros')
    c.same(bool(np.any(R.mask)), False, 'zeros are valid')
    coords(c, R, X)
    spoil(R)
    unchanged(c, X, s, 'zeros are independent')
    R = X.to_masked_array()
    c.close(c.array(R.mask), c.array(m), 0, 'masked array')
    for i in np.ndindex(*m.shape):
        if not m[i]:
            c.close(R.data[i], x[i], 0, 'masked array')
    d = dict(lon=X.lon, lat=X.lat, data=X.data, time=X.time, month=X.month)
    if error:
        d['error'] = X.error
    R = c.gt.spatial(fill_value=FILL).from_dict(d)
    check_grid(c, R, x, m, 'dictionary', error=err)
    dates(c, R, X)
    coords(c, R, X)
    spoil(R)
    unchanged(c, X, s, 'dictionary is independent')

@harness('C16', configs=[dict(extra=x, error=(i % 2 == 0), **d) for i, d in enumerate(DD) for x in (None, 'map', 'full')], mix=16)
def replace_invalid(c, extra, error, ny, nx, nt, mask):
    X = grid(c, 'a', ny, nx, nt, mask, error=error)
    x, m = X.data.copy(), holes(x_shape(ny, nx, nt), mask)
    err = X.error.copy() if error else None
    e = m.copy()
    kw = {}
    if extra:
        a = np.zeros((ny, nx) if extra == 'map' else m.shape, dtype=bool)
        a[1, 1] = True
        a[0, 0, ...] = a[0, 0, ...]
        kw = dict(mask=c.arr(a))
        e = e | (a if a.ndim == m.ndim else a[:, :, None])
    X.replace_invalid(-7777.0, **kw)
    check_grid(c, X, x, e, 'replaced', fill=-7777.0, error=err)
    c.same(X.fill_value, -7777.0, 'fill value')

@harness('C16', configs=[dict(ny=2, nx=3, nt=n) for n in (None, 2)])
def update_mask(c, ny, nx, nt):
    """cells holding the fill value or nan become missing"""
    X = grid(c, 'a', ny, nx, nt, error=True)
    m = np.zeros(X.shape, dtype=bool)
    X.data[0, 0] = FILL
    X.data[1, 2] = np.nan
    m[0, 0] = m[1, 2] = True
    X.mask[0, 1] = True
    m[0, 1] = True
    x, err = X.data.copy(), X.error.copy()
    X.update_mask()
    check_grid(c, X, x, m, 'mask', error=err)

@harness('C16', configs=[dict(order=o, sort=s, date=d, error=(i % 2 == 0), mask=k) for i, (o, s, d, k) in enumerate((o, s, d, k) for o in ((0, 1, 2), (2, 0, 1), (1,), (3, 1, 2, 0))
    for s, d in ((True, True), (False, True), (True, False)) for k in (None, 'some'))], mix=16)
def from_list(c, order, sort, date, error, mask):
    G = [grid(c, f'a{i}', 2, 3, None, mask if k != 1 else None, error=error, start=i) for k, i in enumerate(order)]
    for i, g in zip(order, G):
        g.filename = f'file{i}'
        g.attributes = dict(n=i)
    xs, ms = [g.data.copy() for g in G], [holes((2, 3), mask if k != 1 else None) for k in range(len(G))]
    es = [g.error.copy() if error else None for g in G]
    if mask and not date:
        # values under the mask that are not the fill value yet
        for g in G:
            for i in np.ndindex(2, 3):
                if bool(g.mask[i]):
                    g.data[i] = 3.5
    ss = [snap(c, g) for g in G]
    R = c.gt.spatial().from_list(G, sort=sort, date=date)
    pos = sorted(range(len(order)), key=lambda k: order[k]) if sort and date else list(range(len(order)))
    c.same(R.shape, (2, 3, len(order)), 'shape')
    coords(c, R, G[0])
    c.same((R.filename, [a['n'] for a in R.attributes], R.fill_value), ([f'file{order[k]}' for k in pos], [order[k] for k in pos], FILL), 'files')
    for t, k in enumerate(pos):
        e = c.zeros((2, 3))
        for i in np.ndindex(2, 3):
            e[i] = FILL if ms[k][i] else xs[k][i]
            if error and not ms[k][i]:
                c.close(R.error[i + (t,)], es[k][i], 0, 'error')
        c.close(R.data[:, :, t], e, 0, 'data')
        c.close(c.array(R.mask[:, :, t]), c.array(ms[k]), 0, 'mask')
        if date:
            mo, tm = month_time(1, order[k])
            c.close(R.month[t], mo[0], 0, 'month')
            c.close(R.time[t], tm[0], 0, 'time')
    spoil(R)
    for g, s in zip(G, ss):
        unchanged(c, g, s, 'independent')

@harness('C16', configs=[dict(nt=n, mask=k) for n in (2, 3) for k in (None, 'some')])
def kfactor(c, nt, mask):
    """least-squares factor between two fields, its misfit and the magnitude"""
    ny, nx = 2, 2
    X = grid(c, 'a', ny, nx, nt, mask, lo=1, hi=5)
    Y = grid(c, 'b', ny, nx, nt, None, lo=1, hi=5)
    sx, sy = snap(c, X), snap(c, Y)
    K = c.gt.scaling_factors(fill_value=FILL)
    for k in ('lon', 'lat', 'data', 'mask', 'time', 'month'):
        setattr(K, k, getattr(X, k).copy())
    x, y, m = X.data.copy(), Y.data.copy(), holes((ny, nx, nt), mask)
    R = K.kfactor(Y)
    for i in np.ndindex(ny, nx):
        if m[i].any():
            c.same((bool(R.mask[i]), float(R.data[i])), (True, 0.0), 'missing')
            continue
        xx, xy = sum(x[i][t]**2 for t in range(nt)), sum(x[i][t]*y[i][t] for t in range(nt))
        c.close(R.data[i]*xx, xy, 1e-6, 'factor')
        k = R.data[i]
        c.close(R.error[i]**2*nt, sum((k*x[i][t] - y[i][t])**2 for t in range(nt)), 1e-6, 'misfit')
        c.true(R.error[i] >= 0, 'misfit')
        c.close(R.magnitude[i]**2, sum(y[i][t]**2 for t in range(nt)), 1e-6, 'magnitude')
    c.close(R.lon, X.lon, 0, 'longitude')
    c.close(R.lat, X.lat, 0, 'latitude')
    unchanged(c, Y, sy, 'operand unchanged')

doc('C16', 'all values in [-10,10], factors in [-5,5]; grids of 2-3 x 2-4 cells, single maps and series of up to 4 months, no missing cells, scattered ones or a whole month; with and without an error field; grids to 9x18, series to 40 months')
