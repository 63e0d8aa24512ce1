"""C39 grids moved to other longitudes and other points"""
import numpy as np
from symx.harness import harness, doc
from props.hutil import *

# first longitude, spacing, columns, repeated column at the end, period
LON = dict(edge=(0.0, 60.0, 7, True, 360.0), centre=(30.0, 60.0, 6, False, 360.0), west=(-180.0, 90.0, 5, True, 360.0), plain=(0.0, 45.0, 8, False, 360.0), half=(0.25, 0.5, 5, False, 360.0),
    other=(0.0, 30.0, 5, True, 120.0), odd=(10.0, 72.0, 5, False, 360.0), fine=(0.25, 0.5, 720, False, 360.0), wide=(-180.0, 1.0, 361, True, 360.0))

@harness('C39', configs=[dict(lon=l, at=a, masked=k) for l in LON for a in ('any', 'column', 'first') for k in (False, True) if not (a == 'any' and (k or LON[l][2] > 99))])
def shift(c, lon, at, masked):
    lo, d, n, cyc, period = LON[lon]
    x = lo + d*np.arange(n)
    X = c.arr(x)
    D = c.reals('d', (3, n), -10, 10)
    if cyc:
        D[:, -1] = D[:, 0]
    if at == 'any':
        x0 = c.real('lon0', lo, lo + d*(n - 1))
        i0 = next(i for i in range(n) if i == n - 1 or c.pick(x0 < lo + d*(i + 0.5)))
        for i in range(n - 1):
            c.assume(abs(x0 - (lo + d*(i + 0.5))) > 1e-6)
    else:
        i0 = 0 if at == 'first' else n//2
        x0 = float(x[i0])
    data = D.copy()
    if masked:
        M = np.zeros((3, n), dtype=bool)
        M[1, 1:3] = True
        M[2, n-1] = True
        if cyc:
            M[2, 0] = True
        arr = c.arr(M)
    kw = {} if period == 360.0 else dict(CYCLIC=period)
    R, lons = c.gt.tools.shift_grid(x0, data, X, **kw)
    e, el, em = c.zeros((3, n)), np.zeros(n), np.zeros((3, n), dtype=bool)
    for j in range(n):
        k = i0 + j
        if k < n:
            src, el[j] = k, x[k] - period
        else:
            src = k - n + (1 if cyc else 0)
            el[j] = x[src]
        e[:, j] = D[:, src]
        if masked:
            em[:, j] = M[:, src]
    c.close(R, e, 0, 'shifted values')
    c.close(lons, c.arr(el), 1e-9, 'longitudes')
    c.true(bool(np.all(np.diff(el) > 0)), 'increasing')
    if masked:
        R, _ = c.gt.tools.shift_grid(x0, arr, X, **kw)
        c.close(c.array(R), c.arr(em.astype(float)), 0, 'shifted mask')
    c.close(X, c.arr(x), 0, 'input')
    c.close(data, D, 0, 'input')

GRID = [(4, 5, 0.0, 90.0, -60.0, 40.0), (3, 2, 10.0, 0.5, 60.0, -0.25), (2, 3, -3.0, 1.5, 5.0, 1.0)]

@harness('C39', configs=[dict(g=g, n=n) for g in range(3) for n in (1, 2)])
def nearest(c, g, n):
    ny, nx, x0, dx, y0, dy = GRID[g]
    D = c.reals('d', (ny, nx), -10, 10)
    xi, yi = c.arr(x0 + dx*np.arange(nx)), c.arr(y0 + dy*np.arange(ny))
    X, Y = c.zeros((1, n)), c.zeros((1, n))
    near = []
    for k in range(n):
        cells = []
        for P, nm, o, d, m in ((X, 'x', x0, dx, nx), (Y, 'y', y0, dy, ny)):
            # position in units of the spacing, up to a cell and a half outside the grid
            if k and nm == 'y':
                u = 0.25
            else:
                u = c.real(f'{nm}{k}', -1.5, m + 0.5)
            P[0, k] = o + d*u
            for i in range(m - 1):
                if k == 0 or nm == 'x':
                    c.assume(abs(u - (i + 0.5)) > 1e-6)
            cells.append(next(i for i in range(m) if i == m - 1 or c.pick(u < i + 0.5)))
        near.append(cells)
    R = c.gt.tools.interp_grid(D, xi, yi, X, Y, 0)
    c.same(tuple(R.shape), (1, n), 'shape')
    for k, (i, j) in enumerate(near):
        c.close(R[0, k], D[j, i], 0, 'nearest value')

@harness('C39', configs=[dict(order=k, g=g) for k in (1, 2, 3) for g in ((4, 5, 0.0, 90.0, -60.0, 40.0), (6, 4, 10.0, 0.5, 60.0, 0.25))], thorough=[dict(order=k, g=(8, 9, -180.0, 45.0, -87.5, 25.0)) for k in (1, 2, 3, 4, 5)])
def splines(c, order, g):
    """polynomials of the degree of the spline are reproduced; bilinear values between nodes for degree 1"""
    ny, nx, x0, dx, y0, dy = g
    x, y = x0 + dx*np.arange(nx), y0 + dy*np.arange(ny)
    X, Y = np.array([[0.3, 1.7, nx - 1.25], [0.0, 1.0, nx - 1.0]]), np.array([[0.6, 1.2, 0.1], [0.0, ny - 1.0, 1.5]])
    if order > 1:
        K = c.reals('k', (order + 1, order + 1), -3, 3)
        f = lambda u, v: sum(K[i, j]*(u**i*v**j) for i in range(order + 1) for j in range(order + 1))
        D = c.zeros((ny, nx))
        for i, j in np.ndindex(ny, nx):
            D[i, j] = f(j/nx, i/ny)
    else:
        D = c.reals('d', (ny, nx), -10, 10)
    D0 = D.copy()
    R = c.gt.tools.interp_grid(D, c.arr(x), c.arr(y), c.arr(x0 + dx*X), c.arr(y0 + dy*Y), order)
    c.same(tuple(R.shape), X.shape, 'shape')
    for p in np.ndindex(*X.shape):
        u, v = X[p], Y[p]
        if order > 1:
            e = f(u/nx, v/ny)
        else:
            i, j = min(int(v), ny - 2), min(int(u), nx - 2)
            a, b = v - i, u - j
            e = (1-a)*(1-b)*D0[i, j] + (1-a)*b*D0[i, j+1] + a*(1-b)*D0[i+1, j] + a*b*D0[i+1, j+1]
        c.close(R[p], e, 1e-8, 'interpolated value')
    c.close(D, D0, 0, 'input')

@harness('C39', configs=[dict(n=1, shape=False), dict(n=2, shape=True)])
def wrap(c, n, shape):
    lon, e = c.zeros(n), c.zeros(n)
    for i in range(n):
        lon[i] = c.real(f'lon{i}', -900 if i == 0 else -10, 1260 if i == 0 else 370)
        for k in range(-3, 4):
            c.assume(abs(lon[i] - (180.0 + 360*k)) > 1e-6)
        k = next(k for k in range(-3, 4) if c.pick(lon[i] < 180.0 + 360*k))
        e[i] = lon[i] - 360.0*k
    x = lon if shape else lon[0]
    R = c.gt.tools.wrap_longitudes(x)
    c.close(R, e if shape else e[0], 1e-8, 'longitude')

doc('C39', 'every value, starting longitude and position; listed grids', ['numpy semantics of the symbolic arrays', 'a spline of scipy is the combination of the splines of its single nodes'])
