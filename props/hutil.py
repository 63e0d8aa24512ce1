"""building harmonics and spatial objects with symbolic content"""
import numpy as np

MONTHS = [4, 5, 150, 152, 155, 161, 165] + [178 + i + i//7 for i in range(45)]

def month_time(n, start=0):
    m = [MONTHS[(start+i) % len(MONTHS)] for i in range(n)]
    return m, [2002.0 + (x - 0.5)/12.0 for x in m]

def tri(c, name, L, M, nt=None, lo=-10, hi=10):
    """coefficients, zero above the diagonal and sine zero for order zero"""
    sh = (L+1, M+1) if nt is None else (L+1, M+1, nt)
    C, S = c.zeros(sh), c.zeros(sh)
    for l in range(L+1):
        for m in range(min(l, M)+1):
            for t in ([()] if nt is None else [(i,) for i in range(nt)]):
                k = (l, m) + t
                C[k] = c.real(f'{name}C{list(k)}', lo, hi)
                if m > 0:
                    S[k] = c.real(f'{name}S{list(k)}', lo, hi)
    return C, S

def harm(c, name, L, M=None, nt=None, lo=-10, hi=10, start=0, date=True):
    M = L if M is None else M
    Y = c.gt.harmonics(lmax=L, mmax=M)
    Y.clm, Y.slm = tri(c, name, L, M, nt, lo, hi)
    if date:
        m, t = month_time(nt or 1, start)
        if nt is None:
            Y.month, Y.time = np.int64(m[0]), np.float64(t[0])
        else:
            Y.month, Y.time = c.arr(m), c.arr(t)
    return Y

def keep(Y):
    return Y.clm.copy(), Y.slm.copy()

def snap(c, Y):
    """everything an operation must not change"""
    g = lambda k: getattr(Y, k, None)
    out = {k: (None if g(k) is None else c.array(g(k)).copy()) for k in ('clm', 'slm', 'time', 'month', 'data', 'lon', 'lat', 'mask') if g(k) is not None}
    for k in ('lmax', 'mmax', 'filename'):
        v = g(k)
        out[k] = list(v) if isinstance(v, list) else (int(v) if v is not None and k != 'filename' else v)
    return out

def unchanged(c, Y, s, label):
    for k, v in s.items():
        w = getattr(Y, k, None)
        if k in ('lmax', 'mmax', 'filename'):
            c.same(list(w) if isinstance(w, list) else (int(w) if w is not None and k != 'filename' else w), v, f'{label}: {k}')
        else:
            c.close(c.array(w), v, 0, f'{label}: {k}')

def spoil(R, skip=()):
    """overwrite the content of an object in place"""
    for k in ('clm', 'slm', 'time', 'month', 'data', 'lon', 'lat', 'mask'):
        a = getattr(R, k, None)
        if k not in skip and a is not None and getattr(a, 'ndim', 0) > 0:
            a[...] = (a == a) if k == 'mask' else 77

FILL = -9999.0

def holes(shape, kind):
    """patterns of missing cells"""
    m = np.zeros(shape, dtype=bool)
    if kind == 'some':
        m[0, 1] = True
        if len(shape) == 3:
            m[1, 0, -1] = True
    elif kind == 'month':
        m[..., 0] = True
    elif kind == 'all':
        m[...] = True
    return m

def grid(c, name, ny, nx, nt=None, mask=None, fill=FILL, error=False, start=0, lo=-10, hi=10, date=True, lon0=5.0, lat0=60.0, dlon=20.0, dlat=10.0):
    sh = (ny, nx) if nt is None else (ny, nx, nt)
    g = c.gt.spatial(fill_value=fill)
    g.lon = c.arr(lon0 + dlon*np.arange(nx))
    g.lat = c.arr(lat0 - dlat*np.arange(ny))
    m = holes(sh, mask)
    g.mask = c.arr(m)
    g.data = c.zeros(sh)
    if error:
        g.error = c.zeros(sh)
    for i in np.ndindex(*sh):
        g.data[i] = fill if m[i] else c.real(f'{name}{list(i)}', lo, hi)
        if error:
            g.error[i] = fill if m[i] else c.real(f'{name}E{list(i)}', 0, hi)
    if date:
        mo, t = month_time(nt or 1, start)
        if nt is None:
            g.month, g.time = np.int64(mo[0]), np.float64(t[0])
        else:
            g.month, g.time = c.arr(mo), c.arr(t)
    return g

def check_grid(c, g, data, mask, label, fill=FILL, tol=1e-9, error=None):
    """values where valid, fill value and mask where missing"""
    mask = np.asarray(mask)
    e = c.zeros(mask.shape)
    for i in np.ndindex(*mask.shape):
        e[i] = fill if mask[i] else data[i]
    c.close(g.data, e, tol, label)
    c.close(c.array(g.mask), c.array(mask), 0, label + ': mask')
    if error is not None:
        e = c.zeros(mask.shape)
        for i in np.ndindex(*mask.shape):
            e[i] = fill if mask[i] else error[i]
        c.close(g.error, e, tol, label + ': error')

def fits(ddeg, interval, bounds):
    """grids of a program that hold more than one row and column of cells"""
    if (interval == 3) != (bounds is not None) or min(ddeg) <= 1:
        return False
    return bounds is None or (bounds[1] - bounds[0] > 1.5*ddeg[0] and bounds[3] - bounds[2] > 1.5*ddeg[-1])

def many(c, size=1e-9):
    """values of coefficients of many months and degrees: listed numbers times one of two free factors"""
    s = [c.int('f0', 1, 99), c.int('f1', 1, 99)]
    rng = np.random.default_rng(11)
    x = np.round(rng.uniform(-1, 1, (2, 64, 64, 64)), 3)
    return lambda k, l, m, i: 1e-12 if k[0] == 'e' else s[(l + m + i) % 2]*(x[int(k[0] == 's'), l, m, i]*size)

#  months on either side of the gap between the missions
LONG = list(range(165, 187)) + list(range(198, 206))
# all months of both missions
MISSION = [g for g in range(4, 251) if g not in {6, 7, 18, 109, 114, 125, 130, 135, 140, 141, 146, 151, 156, 162, 166, 167, 172, 177, 178, 182, 200, 201} and not 187 <= g < 198]
