"""C28 mascons and grids"""
import numpy as np
from symx.harness import harness, doc

def layout(kind):
    """centres (lon, lat), spans (lon, lat)"""
    if kind == 'bands':
        # polar caps and bands of mascons, longitudes 0-360
        out = [(0.0, 90.0, 360.0, 30.0), (0.0, -90.0, 360.0, 30.0)]
        for lat, n in ((45.0, 4), (15.0, 6), (-15.0, 5), (-45.0, 3)):
            out += [((i + 0.5)*360.0/n, lat, 360.0/n, 30.0) for i in range(n)]
    elif kind == 'fine':
        # mascons of about 10 degrees
        out = [(0.0, 90.0, 360.0, 10.0), (0.0, -90.0, 360.0, 10.0)]
        for lat in range(-75, 76, 10):
            n = max(int(round(36*np.cos(np.radians(lat)))), 3)
            out += [((i + 0.5)*360.0/n, float(lat), 360.0/n, 10.0) for i in range(n)]
    elif kind == 'dateline':
        out = [(180.0, 30.0, 60.0, 60.0), (-180.0, -30.0, 40.0, 60.0), (175.0, 75.0, 30.0, 30.0), (-175.0, -75.0, 50.0, 30.0), (0.0, 0.0, 80.0, 40.0), (300.0, 50.0, 60.0, 40.0), (190.0, 0.0, 20.0, 40.0)]
    elif kind == 'small':
        out = [(10.0, 10.0, 20.0, 20.0), (350.0, -70.0, 20.0, 20.0), (95.0, 0.0, 30.0, 40.0)]
    elif kind == 'edges':
        # bounds at centres of cells
        out = [(15.0, 10.0, 20.0, 30.0), (55.0, -30.0, 60.0, 50.0), (-95.0, 0.0, 20.0, 40.0)]
    return [np.array(x) for x in zip(*out)]

def grid(step, kind, north):
    n, m = int(round(360/step)), int(round(180/step))
    lon = (-180 + step/2 + step*np.arange(n)) if kind == 'east' else step/2 + step*np.arange(n)
    lat = -90 + step/2 + step*np.arange(m)
    return lon, (lat[::-1].copy() if north else lat)

def inside(lon, lat, a):
    """cells with their centre in a mascon"""
    lo, la, so, sa = a
    if abs(la) == 90:
        return np.outer(lat >= la - sa if la > 0 else lat < la + sa, np.ones(len(lon), dtype=bool))
    d = np.mod(lon - (lo - so/2) + 1e-9, 360.0) < so
    return np.outer((lat >= la - sa/2) & (lat < la + sa/2), d)

def average(c, g, lat, ii):
    s, w = 0.0, 0.0
    for i, j in np.argwhere(ii):
        s = s + g[int(i), int(j)]*float(np.cos(np.radians(lat[i])))
        w += float(np.cos(np.radians(lat[i])))
    return s*(1.0/w)

GC = [dict(kind=k, step=s, grid_kind=g, north=n, column=q) for k, s, g, n, q in (('bands', 10.0, 'east', True, False), ('dateline', 10.0, 'east', False, True), ('small', 10.0, 'east', True, False), ('edges', 10.0, 'east', True, False), ('bands', 15.0, 'east', False, False), ('dateline', 20.0, 'east', True, False),
    ('bands', 15.0, 'zero', True, False), ('dateline', 10.0, 'zero', True, False), ('fine', 4.0, 'east', True, False), ('fine', 5.0, 'zero', False, False))]

@harness('C28', configs=GC, thorough=[dict(kind=k, step=5.0, grid_kind=g, north=n, column=False) for k, g, n in (('bands', 'east', True), ('dateline', 'zero', False))], mix=8)
def gsfc_average(c, kind, step, grid_kind, north, column):
    a = layout(kind)
    lon, lat = grid(step, grid_kind, north)
    g = c.reals('g', (len(lat), len(lon)), -10, 10)
    g0 = g.copy()
    A = [c.arr(x) for x in a]
    lo, la = (c.arr(lon), c.arr(lat)) if not column else (c.arr(lon[:, None]), c.arr(lat[:, None]))
    R = c.mod('mascons').to_gsfc(g, lo, la, *A)
    for k, m in enumerate(zip(*a)):
        c.close(R['data'][k], average(c, g0, lat, inside(lon, lat, m)), 1e-8, f'mascon {k}')
    c.close(R['lat_center'], c.arr(a[1]), 0, 'latitude of centres')
    c.close(R['lon_center'], c.arr(np.where(a[0] > 180, a[0] - 360, a[0])), 1e-9, 'longitude of centres')
    for x, y, n in zip(A, a, ('longitudes', 'latitudes', 'spans', 'spans')):
        c.close(x, c.arr(y), 0, f'input {n}')
    c.close(g, g0, 0, 'grid')
    c.close(lo.reshape(-1), c.arr(lon), 0, 'grid longitudes')

@harness('C28', configs=[dict(kind=k, step=s, transpose=t) for k, s, t in (('bands', 10.0, False), ('dateline', 10.0, True), ('small', 5.0, None), ('edges', 10.0, False), ('bands', 15.0, True), ('fine', 2.5, None))], mix=16)
def gsfc_grid(c, kind, step, transpose):
    a = layout(kind)
    v = c.reals('m', len(a[0]), -10, 10)
    A = [c.arr(x) for x in a]
    kw = {} if transpose is None else dict(transpose=transpose)
    R = c.mod('mascons').from_gsfc(v, step, *A, **kw)
    lon, lat = grid(step, 'east', True)
    e = c.zeros((len(lat), len(lon)))
    for k, m in enumerate(zip(*a)):
        for i, j in np.argwhere(inside(lon, lat, m)):
            e[int(i), int(j)] = v[k]
    c.close(R, e.T if transpose else e, 0, 'grid')
    for x, y in zip(A, a):
        c.close(x, c.arr(y), 0, 'input mascons')
    if kind != 'dateline':
        S = c.mod('mascons').to_gsfc(e, c.arr(lon), c.arr(lat), *[c.arr(x) for x in a])
        c.close(S['data'], v, 1e-8, 'mascons of the grid')

def jpl(kind):
    """bounds (nmas, 4) of longitude W W E E and latitude N S S N"""
    out = []
    if kind == 'bands':
        for s, n, m in ((60, 90, 2), (30, 60, 5), (-30, 30, 6), (-60, -30, 4), (-90, -60, 1)):
            out += [(i*360.0/m, (i+1)*360.0/m, n, s) for i in range(m)]
    elif kind == 'fine':
        for s in range(-90, 90, 9):
            m = max(int(round(40*np.cos(np.radians(s + 4.5)))), 1)
            out += [(i*360.0/m, (i+1)*360.0/m, s + 9, s) for i in range(m)]
    else:
        out = [(0.0, 30.0, 20.0, -10.0), (100.0, 140.0, -20.0, -60.0), (200.0, 203.0, 2.0, 1.0), (251.0, 253.0, 40.0, -20.0), (270.0, 300.0, 61.0, 59.0), (330.0, 360.0, 90.0, 80.0), (0.0, 360.0, -80.0, -90.0)]
    W, E, N, S = (np.array(x, dtype=float) for x in zip(*out))
    return np.stack([W, W, E, E], axis=1), np.stack([N, S, S, N], axis=1)

@harness('C28', configs=[dict(kind=k, step=s, north=n, column=q) for k, s, n, q in (('bands', 10.0, False, False), ('some', 10.0, True, True), ('bands', 12.0, True, False), ('some', 5.0, False, False), ('fine', 4.0, True, False))], mix=8)
def jpl_average(c, kind, step, north, column):
    lb, tb = jpl(kind)
    lon, lat = grid(step, 'zero', north)
    g = c.reals('g', (len(lat), len(lon)), -10, 10)
    g0 = g.copy()
    lo, la = (c.arr(lon), c.arr(lat)) if not column else (c.arr(lon[:, None]), c.arr(lat[:, None]))
    R = c.mod('mascons').to_jpl(g, lo, la, c.arr(lb), c.arr(tb))
    for k in range(len(lb)):
        ii = np.outer((lat >= tb[k, 1]) & (lat < tb[k, 0]), (lon >= lb[k, 0]) & (lon < lb[k, 2]))
        c.close(R['data'][k], average(c, g0, lat, ii) if ii.any() else 0.0, 1e-8, f'mascon {k}')
        c.same(bool(R['mask'][k]), not ii.any(), 'mask')
        y = [90.0, 0.0] if tb[k, 0] == 90 else ([-90.0, 0.0] if tb[k, 1] == -90 else [(tb[k, 0] + tb[k, 1])/2, (lb[k, 0] + lb[k, 2])/2])
        c.close(c.array([R['lat'][k], R['lon'][k]]), c.arr(y), 1e-9, 'centre')
    c.close(g, g0, 0, 'grid')

@harness('C28', configs=[dict(kind=k, step=s, transpose=t) for k, s, t in (('bands', 10.0, None), ('some', 10.0, True), ('some', 4.0, False), ('fine', 3.0, None))])
def jpl_grid(c, kind, step, transpose):
    lb, tb = jpl(kind)
    v = c.reals('m', len(lb), -10, 10)
    kw = {} if transpose is None else dict(transpose=transpose)
    R = c.mod('mascons').from_jpl(v, step, c.arr(lb), c.arr(tb), **kw)
    lon, lat = grid(step, 'zero', False)
    e = c.zeros((len(lat), len(lon)))
    for k in range(len(lb)):
        for i, j in np.argwhere(np.outer((lat >= tb[k, 1]) & (lat < tb[k, 0]), (lon >= lb[k, 0]) & (lon < lb[k, 2]))):
            e[int(i), int(j)] = v[k]
    c.close(R, e.T if transpose else e, 0, 'grid')
    if kind == 'bands':
        S = c.mod('mascons').to_jpl(e, c.arr(lon), c.arr(lat), c.arr(lb), c.arr(tb))
        c.close(S['data'], v, 1e-8, 'mascons of the grid')

@harness('C28', configs=[dict(lo=l, hi=h, span=s) for l, h, s in ((-30, 35, 50.0), (140, 215, 55.0), (-200, -150, 44.0), (310, 350, 33.0))])
def gsfc_anywhere(c, lo, hi, span):
    """mascon with any centre"""
    x, y = c.real('lon', lo, hi), c.real('lat', -50, 50)
    lon, lat = grid(30.0, 'east', True)
    for t in lat:
        c.assume((abs(y - 25.0 - float(t)) > 1e-3) & (abs(y + 25.0 - float(t)) > 1e-3))
    for p in lon:
        for q in (-360.0, 0.0, 360.0):
            c.assume((abs(x - span/2 - float(p) - q) > 1e-3) & (abs(x + span/2 - float(p) - q) > 1e-3))
    R = c.mod('mascons').from_gsfc(c.arr([1.0]), 30.0, c.array([x]), c.array([y]), c.arr([span]), c.arr([50.0]))
    for i, t in enumerate(lat):
        row = c.pick((float(t) >= y - 25.0) & (float(t) < y + 25.0))
        for j, p in enumerate(lon):
            col = False
            for q in (-360.0, 0.0, 360.0):
                col = c.pick((float(p) + q >= x - span/2) & (float(p) + q < x + span/2)) or col
            c.close(R[i, j], 1.0 if row and col else 0.0, 0, 'cell')

doc('C28', 'all fields and mascon values on listed layouts (bands, polar caps, across the date line and Greenwich) and grids to 5 degrees; one mascon at any position on a 30 degree grid')
