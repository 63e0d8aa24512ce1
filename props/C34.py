"""C34 programs converting files between harmonics and maps"""
import pathlib
import numpy as np
from symx.harness import harness, doc
from props.hutil import *
from props.oracles import *
from props.C11 import quadrature
from props.C23 import write_mask, BASE

G, GM = 6.67430e-8, 3986004.418e14 - 3.5e14
RAD = 6.378137e8*(1.0 - 1.0/298.257223563)**(1.0/3.0)
RHO = 0.75*GM/(G*np.pi*RAD**3)
EXT = dict(ascii='txt', netCDF4='nc', HDF5='H5')

def love(c, L, n=0, ref='CF'):
    """tabulated load Love numbers (read as in C25)"""
    return [np.array([float(x) for x in v]) for v in c.gt.load_love_numbers(L, LOVE_NUMBERS=n, REFERENCE=ref)]

def factor(c, units, L, n=0, ref='CF'):
    h, k, l = love(c, L, n, ref)
    d = np.arange(L+1)
    w = RHO*RAD*(2*d+1)/(1 + k)/3
    GMe = 3986004.418e14 if False else GM
    return {0: np.ones(L+1), 1: w, 2: np.full(L+1, 10*RAD), 3: 10*RAD*h/(1 + k), 4: 1e6*GM*(d+1)/RAD**2, 5: 980.665*w/1000}[units]

def nodes(ddeg, interval, bounds=None):
    dx, dy = (ddeg*2)[:2]
    if interval == 1:
        return np.arange(0, 360 + dx/2, dx), np.arange(90, -90 - dy/2, -dy)
    if interval == 2:
        return np.arange(dx/2, 360, dx), np.arange(90 - dy/2, -90, -dy)
    x0, x1, y0, y1 = bounds
    return np.arange(x0 + dx/2, x1, dx), np.arange(y1 - dy/2, y0, -dy)

def write(c, Y, fmt, f, date):
    getattr(Y, 'to_' + fmt)(f, date=date)
    return f

CB = [dict(fmt=f, nt=n, date=d, LF=lf, L=L, M=M, units=u, rad=r, ddeg=s, interval=i, bounds=b, mean=me, love=lv) for f, n, d, lf, L, M, u, r, s, i, b, me, lv in (
    ('netCDF4', 3, True, 3, 3, None, 1, 0, [60.0], 2, None, False, 0),
    ('netCDF4', None, True, 4, 3, None, 2, 500, [90.0, 45.0], 1, None, True, 1),
    ('HDF5', 2, True, 3, 3, 2, 3, 0, [90.0, 60.0], 2, None, False, 2),
    ('ascii', None, True, 3, 3, None, 1, 300, [60.0, 90.0], 1, None, False, 0),
    ('netCDF4', None, False, 3, 2, None, 4, 0, [72.0, 60.0], 2, None, True, 3),
    ('HDF5', None, False, 3, 3, None, 0, 800, [10.0, 5.0], 3, [20.0, 50.0, -15.0, 10.0], False, 4),
    ('index-netCDF4', 3, True, 3, 2, 1, 5, 250, [20.0], 3, [-60.0, 0.0, 30.0, 70.0], True, 0),
    ('index-ascii', 1, True, 2, 2, None, 1, 0, [120.0, 60.0], 2, None, False, 0),
    ('index-HDF5', 2, True, 2, 2, None, 2, 0, [120.0, 60.0], 1, None, True, 0),
    # fine spacings in one direction
    ('netCDF4', None, True, 1, 1, None, 1, 0, [0.75, 90.0], 2, None, False, 0),
    ('HDF5', None, True, 1, 1, None, 1, 0, [180.0, 0.6], 2, None, False, 0),
    ('netCDF4', None, False, 1, 1, None, 2, 0, [120.0, 0.5], 1, None, False, 0),
    ('ascii', None, True, 1, 1, None, 1, 0, [0.8, 90.0], 1, None, False, 0))]

@harness('C34', configs=CB, thorough=[dict(d, L=6, LF=7, M=m) for d in CB[:3] for m in (None, 4)], mix=16, ok=lambda fmt, nt, date, LF, L, interval, bounds, ddeg, **k: (nt is None if fmt.endswith('ascii') else nt is not None or not fmt.startswith('index')) and (nt is None or date) and not fmt == 'index-ascii' and fits(ddeg, interval, bounds) and LF >= L and not (fmt == 'ascii' and interval == 3))
def combine(c, fmt, nt, date, LF, L, M, units, rad, ddeg, interval, bounds, mean, love):
    P = c.script('combine_harmonics')
    base = pathlib.Path(c.tmpdir())
    kind = fmt.split('-')[-1]
    Y = harm(c, 'a', LF, nt=nt, lo=0.01)
    s = 1e-9
    Y.clm, Y.slm = Y.clm*s, Y.slm*s
    src = base/f'in.{EXT[kind]}'
    if fmt.startswith('index'):
        files = [base/f'in{i}.{EXT[kind]}' for i in range(nt)]
        src = base/'index.txt'
        Y.to_index(src, files, format=kind, date=date)
    else:
        write(c, Y, kind, src, date)
    kw = {}
    C, S = Y.clm.copy(), Y.slm.copy()
    if nt is None:
        C, S = C.reshape(LF+1, LF+1, 1), S.reshape(LF+1, LF+1, 1)
    if mean:
        Z = harm(c, 'm', L, lo=0.01, date=False)
        Z.clm, Z.slm = Z.clm*s, Z.slm*s
        kw['MEAN_FILE'] = write(c, Z, kind, base/f'mean.{EXT[kind]}', False)
        for t in range(nt or 1):
            for l in range(L+1):
                for m in range(l+1):
                    C[l, m, t] = C[l, m, t] - Z.clm[l, m]
                    S[l, m, t] = S[l, m, t] - Z.slm[l, m]
    out = base/'sub'/f'out.{EXT[kind]}'
    P.combine_harmonics(str(src) if nt else src, out, LMAX=L, MMAX=M, LOVE_NUMBERS=love, REFERENCE='CF', RAD=rad, UNITS=units, DDEG=ddeg, INTERVAL=interval, BOUNDS=bounds, DATAFORM=fmt, DATE=date, **kw)
    lon, lat = nodes(ddeg, interval, bounds)
    w = 2*np.pi*gauss_quadrature(rad, L)*factor(c, units, L, love)
    tol = 1e-7
    sc = float(w[:].max())*s if units != 0 else s
    if kind == 'ascii':
        R = c.gt.spatial().from_ascii(out, date=date, nlon=len(lon), nlat=len(lat), spacing=[(ddeg*2)[0], (ddeg*2)[1]])
        tol = 6e-5/sc*1.01
    else:
        R = getattr(c.gt.spatial(), 'from_' + kind)(out, date=date)
    c.close(R.lon, lon, 1e-4, 'longitudes')
    c.close(R.lat, lat, 1e-4, 'latitudes')
    data = c.array(R.data).reshape(len(lat), len(lon), -1)
    c.same(data.shape[2], nt or 1, 'number of months')
    c.same(bool(np.any(np.array([bool(x) for x in np.ravel(c.array(R.mask))]))), False, 'mask')
    for t in range(nt or 1):
        f = field(c, C[:, :, t], S[:, :, t], list(lon), plm_table(L, L, list(lat)), 0, L, L if M is None else M, weight=w)
        c.close(data[:, :, t]/sc, f.T/sc, tol, 'map')
    if date:
        c.close(c.array(R.time).reshape(-1), c.array(Y.time).reshape(-1), 1e-4, 'time')
        c.close(c.array(R.month).reshape(-1), c.array(Y.month).reshape(-1), 0, 'month')

@harness('C34', configs=[dict(L=L, M=M, nt=n, destripe=d, redist=r, mean=me) for L, M, n, d, r, me in ((3, None, None, False, True, False), (3, 2, 2, False, True, True), (10, None, None, True, False, False), (10, None, 2, True, True, False))], mix=8)
def filtered(c, L, M, nt, destripe, redist, mean):
    """mass over the ocean and decorrelation are applied to the truncated fields before smoothing"""
    P = c.script('combine_harmonics')
    base = pathlib.Path(c.tmpdir())
    s = 1e-9
    Y = harm(c, 'a', L, nt=nt)
    Y.clm, Y.slm = Y.clm*s, Y.slm*s
    kw = {}
    Mx = L if M is None else M
    C, S = Y.clm.reshape(L+1, L+1, -1).copy(), Y.slm.reshape(L+1, L+1, -1).copy()
    if mean:
        Z = harm(c, 'm', 2, date=False)
        Z.clm, Z.slm = Z.clm*s, Z.slm*s
        kw['MEAN_FILE'] = write(c, Z, 'netCDF4', base/'mean.nc', False)
        for t in range(nt or 1):
            C[:3, :3, t] = C[:3, :3, t] - Z.clm
            S[:3, :3, t] = S[:3, :3, t] - Z.slm
    C, S = C[:, :Mx+1], S[:, :Mx+1]
    if redist:
        D = np.array(BASE)[:4]
        dl = 60.0
        mlon, mlat = dl/2 + dl*np.arange(6), 67.5 - 45.0*np.arange(4)
        kw.update(REDISTRIBUTE=True, LANDMASK=write_mask(c, D, mlon, mlat, 'LSMASK'))
        h, k, l = love(c, L)
        fac = [3*(1 + k[i])/(2*i+1)/(4*np.pi*RAD*RHO)*1e9 for i in range(L+1)]
        ocean = 1.0*((D < 1) | (D > 3))
        oC, oS = quadrature(c, ocean.T, list(mlon), list(mlat), np.cos(np.radians(mlat))*np.radians(60.0)*np.radians(45.0), L, Mx, 0, fac)
        for t in range(nt or 1):
            q = C[0, 0, t]/oC[0, 0]
            for i in np.ndindex(L+1, Mx+1):
                C[i + (t,)] = C[i + (t,)] - q*oC[i]
                S[i + (t,)] = S[i + (t,)] - q*oS[i]
    if destripe:
        for t in range(nt or 1):
            W = c.gt.destripe_harmonics(C[:, :, t].copy(), S[:, :, t].copy(), LMAX=L, MMAX=Mx)
            C[:, :, t], S[:, :, t] = W['clm'], W['slm']
    src = write(c, Y, 'HDF5', base/'in.H5', True) if not mean else write(c, Y, 'netCDF4', base/'in.nc', True)
    fmt = 'netCDF4' if mean else 'HDF5'
    out = base/'out.h5'
    P.combine_harmonics(src, out, LMAX=L, MMAX=M, REFERENCE='CF', RAD=400, UNITS=1, DDEG=[60.0], INTERVAL=2, DATAFORM=fmt, DATE=True, DESTRIPE=destripe, **kw)
    R = getattr(c.gt.spatial(), 'from_' + fmt)(out)
    lon, lat = nodes([60.0], 2)
    w = 2*np.pi*gauss_quadrature(400, L)*factor(c, 1, L)
    data = c.array(R.data).reshape(len(lat), len(lon), -1)
    sc = float(w.max())*s
    for t in range(nt or 1):
        f = field(c, C[:, :, t], S[:, :, t], list(lon), plm_table(L, Mx, list(lat)), 0, L, Mx, weight=w)
        c.close(data[:, :, t]/sc, f.T/sc, 1e-6, 'map')
    c.close(c.array(R.time).reshape(-1), c.array(Y.time).reshape(-1), 1e-4, 'time')
    c.close(c.array(R.month).reshape(-1), c.array(Y.month).reshape(-1), 0, 'month')

CV = [dict(fmt=f, nt=n, date=d, L=L, M=M, units=u, spacing=s, interval=i, hole=h, love=lv) for f, n, d, L, M, u, s, i, h, lv in (
    ('netCDF4', None, True, 2, None, 1, [60.0, 45.0], 2, None, 0), ('HDF5', 3, True, 3, 2, 2, [90.0, 60.0], 2, 'some', 1), ('ascii', None, True, 2, None, 3, [60.0, 60.0], 2, 'some', 2),
    ('netCDF4', None, False, 3, 1, 3, 60.0, 1, 'some', 3), ('ascii', None, False, 1, None, 1, 90.0, 1, None, 4), ('netCDF4', 2, True, 1, None, 1, [120.0, 90.0], 1, 'month', 0),
    ('netCDF4', None, False, 1, None, 3, [0.8, 90.0], 2, None, 0), ('HDF5', None, True, 1, None, 1, [120.0, 0.5], 1, None, 1), ('ascii', None, True, 1, None, 1, [180.0, 0.75], 2, None, 0))]

@harness('C34', configs=CV, mix=16, ok=lambda fmt, nt, date, spacing, hole, **k: (hole != 'month' or nt is not None) and (nt is None or (fmt != 'ascii' and date)) and np.min(spacing) > 1)
def convert(c, fmt, nt, date, L, M, units, spacing, interval, hole, love):
    P = c.script('convert_harmonics')
    base = pathlib.Path(c.tmpdir())
    lon, lat = nodes(spacing if isinstance(spacing, list) else [spacing], interval)
    dx, dy = lon[1] - lon[0], lat[0] - lat[1]
    g = grid(c, 'D', len(lat), len(lon), nt, hole, lon0=lon[0], lat0=lat[0], dlon=dx, dlat=dy, lo=0.1 if fmt == 'ascii' else -10)
    src, out = base/f'grid.{EXT[fmt]}', base/'sub'/f'harmonics.{EXT[fmt]}'
    data, shape = g.data.copy(), g.shape
    getattr(g, 'to_' + fmt)(src, date=date)
    if fmt == 'ascii':
        src.write_text('longitude latitude data\n' + src.read_text())
    P.convert_harmonics(src, str(out), LMAX=L, MMAX=M, UNITS=units, LOVE_NUMBERS=love, REFERENCE='CM', DDEG=spacing, INTERVAL=interval, FILL_VALUE=FILL, HEADER=1, DATAFORM=fmt, DATE=date)
    R = getattr(c.gt.harmonics(), 'from_' + fmt)(out, date=date)
    h, k, l = globals()['love'](c, L, love, 'CM')
    sc = {1: 1e-9, 2: 1e-10, 3: 1e-10}[units]
    fac = np.array([3*(1 + k[i])/(2*i+1)/(4*np.pi*RAD*RHO) for i in range(L+1)])*{1: 1.0, 2: 1e15/RAD**2, 3: 0.1}[units]/sc
    area = np.cos(np.radians(lat))*np.radians(dx)*np.radians(dy) if units != 2 else np.ones(len(lat))
    m = holes(shape, hole)
    Mx = L if M is None else M
    c.same((int(R.lmax), int(R.mmax)), (L, Mx), 'degree and order')
    rc, rs = c.array(R.clm).reshape(L+1, Mx+1, -1), c.array(R.slm).reshape(L+1, Mx+1, -1)
    c.same(rc.shape[2], nt or 1, 'number of months')
    for t in range(nt or 1):
        D = c.zeros((len(lat), len(lon)))
        for i in np.ndindex(len(lat), len(lon)):
            j = i + ((t,) if nt else ())
            D[i] = 0.0 if m[j] else data[j]
        C, S = quadrature(c, D.T, list(lon), list(lat), area, L, Mx, 0, fac)
        tol = 1e-6 if fmt != 'ascii' else 1e-6 + 6e-5*float(np.abs(fac).max())*4*np.pi*3
        c.close(rc[:, :, t]/sc, C, tol, 'cosine')
        c.close(rs[:, :, t]/sc, S, tol, 'sine')
    if date:
        c.close(c.array(R.time).reshape(-1), c.array(g.time).reshape(-1), 2e-4, 'time')
        c.close(c.array(R.month).reshape(-1), c.array(g.month).reshape(-1), 0, 'month')

doc('C34', 'all coefficients to degree 3 (decorrelation to 10) and grid values within 10 on global and regional grids, listed options', ['netCDF4 and HDF5 files are an in-memory stand-in in the encoding; every model is replayed through the real libraries'])
