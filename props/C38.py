"""C38 programs mapping errors and scaled fields"""
import pathlib
import numpy as np
from symx.harness import harness, doc
from props.hutil import *
from props.oracles import *
from props.C34 import factor, nodes, EXT
from props.C35 import anomalies, month

NAMES = ['norm', 'cmwe', 'mmGH', 'mmCU', 'microGal', 'mbar']

def noise_file(c, base, tag, fmt, L, M, LF, n, scale):
    """file of errors to degree LF: pattern times a free scale; pattern of its coefficients"""
    f = base/'CSR'/'RL06'/'GSM'/f'CSR_RL06_GSM_DELTA_CLM_{tag}.{EXT[fmt]}'
    E = c.gt.harmonics(lmax=LF, mmax=LF)
    rng = np.random.default_rng(5)
    a, b = (np.tril(np.round(rng.uniform(1, 9, (LF+1, LF+1)), 3))*1e-12 for _ in range(2))
    b[:, 0] = 0.0
    E.clm, E.slm = c.arr(a)*scale, c.arr(b)*scale
    E.time, E.month = np.float64(2003.5), np.int64(n)
    getattr(E, 'to_' + fmt)(f)
    return a[:L+1, :M+1], b[:L+1, :M+1]

def error_map(L, M, lmin, lon, lat, a, b, w, n):
    """errors of a map from independent errors of the coefficients"""
    out = np.zeros((len(lat), len(lon)))
    for i, y in enumerate(lat):
        T = plm_table(L, M, [y])
        for j, x in enumerate(lon):
            s = 0.0
            for l in range(lmin, L+1):
                for m in range(min(l, M)+1):
                    p = float(T[l, m, 0])*w[l]
                    s += (p*a[l, m]*np.cos(np.radians(m*x)))**2 + (p*b[l, m]*np.sin(np.radians(m*x)))**2
            out[i, j] = np.sqrt(s/n)
    return out

ER = [dict(gs=g, L=L, M=M, LF=lf, lmin=mi, units=u, rad=r, ddeg=s, interval=i, bounds=b, fmt=f, mean=me, destripe=d, prefix=p) for g, L, M, lf, mi, u, r, s, i, b, f, me, d, p in (
    ([4, 5, 8], 3, None, 3, 1, 1, 0, [90.0, 60.0], 2, None, 'netCDF4', None, False, None), ([4, 5], 3, 2, 4, 2, 2, 400, [120.0, 90.0], 1, None, 'HDF5', 'netCDF4', False, 'x_'), ([10, 11], 4, None, 5, 0, 3, 250, [20.0], 3, [-60.0, 0.0, 30.0, 70.0], 'netCDF4', None, True, None),
    (list(range(4, 16)) + [18, 20], 2, None, 2, 1, 5, 0, [90.0, 90.0], 1, None, 'ascii', 'ascii', False, None), ([14, 15], 3, 1, 3, 1, 4, 300, [72.0, 45.0], 2, None, 'netCDF4', None, False, None),
    ([14, 15], 1, None, 1, 1, 1, 0, [0.75, 90.0], 2, None, 'netCDF4', None, False, None), ([14, 15], 1, None, 1, 1, 1, 0, [180.0, 0.8], 2, None, 'HDF5', None, False, None), ([14, 15], 1, None, 1, 1, 1, 0, [0.8, 90.0], 1, None, 'netCDF4', None, False, None))]

ER.append(dict(gs=LONG, L=24, M=None, LF=30, lmin=1, units=1, rad=300, ddeg=[60.0, 45.0], interval=2, bounds=None, fmt='netCDF4', mean=None, destripe=False, prefix=None))

@harness('C38', configs=ER, mix=10, ok=lambda L, M, LF, mean, ddeg, interval, bounds, destripe, **k: M != L and LF >= L and fits(ddeg, interval, bounds) and (L == 4) == destripe and (k['fmt'] != 'ascii' or (len(ddeg) == 2 and len(k['gs']) > 12)) and (L > 1 or mean is None) and (L < 12) == (len(k['gs']) < 20) and (L < 12 or mean is None))
def errors(c, gs, L, M, LF, lmin, units, rad, ddeg, interval, bounds, fmt, mean, destripe, prefix):
    """map of the errors kept in a file"""
    P = c.script('grace_spatial_error')
    if destripe:
        L = LF = 10
    C, S, t, kw, _, base, Mx, _, _ = anomalies(c, gs, gs, L, M, mean, None, None, False, destripe, many(c) if L > 10 else None, deg=L if L > 10 else 3)
    tag = f'L{L}{f"M{M}" if M else ""}{"_FL" if destripe else ""}_{gs[0]:03d}-{gs[-1]:03d}'
    s = c.int('noise', 1, 9) if fmt == 'ascii' else c.real('noise', 0.5, 2)
    n = len(gs) - 12 if len(gs) > 12 else 7
    a, b = noise_file(c, base, tag, fmt, L, Mx, LF, n, s)
    R = P.grace_spatial_error(str(base), 'CSR', 'RL06', 'GSM', L, rad, START=gs[0], END=gs[-1], MISSING=[g for g in range(gs[0], gs[-1]) if g not in gs], LMIN=lmin, MMAX=M, REFERENCE='CF', DESTRIPE=destripe, UNITS=units, DDEG=ddeg, INTERVAL=interval, BOUNDS=bounds, DATAFORM=fmt, OUTPUT_DIRECTORY=base/'out', FILE_PREFIX=prefix, **kw)
    f = base/'out'/f'{prefix or "CSR_RL06_GSM_"}{NAMES[units]}_L{L}{f"M{M}" if M else ""}{f"_r{rad}km" if rad else ""}{"_FL" if destripe else ""}_ERR_{gs[0]:03d}-{gs[-1]:03d}.{EXT[fmt]}'
    c.same([str(x) for x in R], [str(f)], 'files')
    lon, lat = nodes(ddeg, interval, bounds)
    lon = lon - 180.0 if interval < 3 else lon
    w = 2*np.pi*gauss_quadrature(rad, L)*factor(c, units, L)
    e = error_map(L, Mx, lmin, lon, lat, a, b, w, n)
    k = float(np.abs(e).max())
    if fmt == 'ascii':
        Z = c.gt.spatial().from_ascii(f, date=False, spacing=ddeg, extent=[lon[0], lon[-1], lat[-1], lat[0]])
    else:
        Z = getattr(c.gt.spatial(), 'from_' + fmt)(f, date=False)
    c.close(Z.lon, lon, 1e-4, 'longitudes')
    c.close(Z.lat, lat, 1e-4, 'latitudes')
    c.close(Z.data/k, c.arr(e/k)*s, 6e-5/k if fmt == 'ascii' else 1e-7, 'errors')

@harness('C38', configs=[dict(n=13, L=2, M=None, fmt='netCDF4', units=1, rad=0), dict(n=14, L=2, M=1, fmt='HDF5', units=2, rad=300), dict(n=15, L=1, M=None, fmt='ascii', units=3, rad=0), dict(n=36, L=5, M=None, fmt='netCDF4', units=1, rad=0)], mix=6, ok=lambda L, M, **k: M != L)
def noise(c, n, L, M, fmt, units, rad):
    """errors from the noise of the smoothed coefficients"""
    P = c.script('grace_spatial_error')
    gs = list(range(8, 8 + n))
    rng = np.random.default_rng(3)
    pat = np.round(rng.uniform(1, 9, (4, L+1, L+1, n)), 2)
    s = c.int('size', 1, 9)
    C, S, t, kw, _, base, Mx, _, _ = anomalies(c, gs, gs, L, M, value=lambda k, l, m, i: s*(pat['clm,slm,eclm,eslm'.split(',').index(k), l, m, i]*1e-9), deg=L)
    R = P.grace_spatial_error(str(base), 'CSR', 'RL06', 'GSM', L, rad, START=gs[0], END=gs[-1], MISSING=[], LMIN=1, MMAX=M, REFERENCE='CF', UNITS=units, DDEG=[90.0, 60.0], INTERVAL=2, DATAFORM=fmt, OUTPUT_DIRECTORY=base/'out')
    order = f'M{M}' if M else ''
    delta = base/'CSR'/'RL06'/'GSM'/f'CSR_RL06_GSM_DELTA_CLM_L{L}{order}_{gs[0]:03d}-{gs[-1]:03d}.{EXT[fmt]}'
    f = base/'out'/f'CSR_RL06_GSM_{NAMES[units]}_L{L}{order}{f"_r{rad}km" if rad else ""}_ERR_{gs[0]:03d}-{gs[-1]:03d}.{EXT[fmt]}'
    c.same(set(str(x) for x in R), {str(delta), str(f)}, 'files')
    ts = c.arr([float(x) for x in t])
    a, b = np.zeros((L+1, Mx+1)), np.zeros((L+1, Mx+1))
    q = lambda k, l, m: pat[0 if k == 'C' else 1, l, m]*1e-9
    D = getattr(c.gt.harmonics(), 'from_' + fmt)(delta)
    for l in range(L+1):
        for m in range(min(l, Mx)+1):
            for k, Z in (('C', a), ('S', b)):
                if k == 'S' and m == 0:
                    continue
                x = q(k, l, m)
                Z[l, m] = smoothed_noise(np.array([float(u) for u in t]), x - x.mean())
            c.close(D.clm[l, m]*1e9, s*(a[l, m]*1e9), 1e-6, 'noise of a cosine')
            c.close(D.slm[l, m]*1e9, s*(b[l, m]*1e9), 1e-6, 'noise of a sine')
    lon, lat = nodes([90.0, 60.0], 2)
    lon = lon - 180.0
    w = 2*np.pi*gauss_quadrature(rad, L)*factor(c, units, L)
    e = error_map(L, Mx, 1, lon, lat, a, b, w, n - 12)
    k = float(np.abs(e).max())
    Z = getattr(c.gt.spatial(), 'from_' + fmt)(f, date=False, **(dict(spacing=[90.0, 60.0], extent=[lon[0], lon[-1], lat[-1], lat[0]]) if fmt == 'ascii' else {}))
    if fmt != 'ascii':
        c.close(Z.data/k, c.arr(e/k)*s, 1e-6, 'errors')

def smoothed_noise(t, x, h=6):
    """root mean square of the residuals at the centres of windows of 2h+1 months fit by a line, annual and semiannual terms"""
    r = []
    for i in range(h, len(t) - h):
        u = t[i-h:i+h+1]
        A = np.stack([np.ones(2*h+1), u - t[i]] + [f(2*np.pi*k*u) for k in (1, 2) for f in (np.sin, np.cos)], axis=1)
        p = np.linalg.lstsq(A, x[i-h:i+h+1], rcond=None)[0]
        r.append(x[i] - A[h] @ p)
    return np.sqrt(np.mean(np.square(r)))

SC = [dict(gs=g, L=L, M=M, lmin=mi, rad=r, fmt=f, mean=me, gia=gi, remove=re, ocean=o, destripe=d, prefix=p, kind=k) for g, L, M, mi, r, f, me, gi, re, o, d, p, k in (
    ([4, 5, 8], 3, None, 1, 0, 'netCDF4', None, None, None, False, False, None, 'all'), ([10, 11], 2, 1, 2, 300, 'HDF5', None, None, None, False, False, 'x_', 'all'), (list(range(4, 17)), 2, None, 0, 0, 'netCDF4', None, None, None, False, False, None, 'noise'),
    ([4, 5], 3, 2, 1, 350, 'netCDF4', 'netCDF4', 'AW13-ICE6G', ['HDF5'], True, False, None, 'data'), ([13, 15], 3, None, 1, 0, 'HDF5', 'ascii', None, ['netCDF4', 'index-HDF5'], False, False, None, 'data'), ([13], 10, None, 1, 250, 'netCDF4', 'netCDF4', None, ['netCDF4'], False, True, None, 'data'))]

@harness('C38', configs=SC, mix=8, ok=lambda gs, L, M, mean, gia, remove, ocean, destripe, kind, **k: M != L and (L == 10) == destripe and not (destripe and gia) and (kind == 'data' or (not gia and not remove and not ocean and mean is None)) and (len(gs) > 12) == (kind == 'noise'))
def scaled(c, gs, L, M, lmin, rad, fmt, mean, gia, remove, ocean, destripe, prefix, kind):
    """maps multiplied by a grid of factors and the errors of these products"""
    P = c.script('scale_grace_maps')
    rng = np.random.default_rng(8)
    value = lambda k, l, m, i: c.real(f'{k}{l},{m},{i}', 0.1, 1)*1e-12
    if kind != 'data':
        s = c.int('size', 1, 9)
        pat = np.round(rng.uniform(1, 9, (4, 5, 5, len(gs))), 2)
        value = lambda k, l, m, i: s*float(f'{pat["clm,slm,eclm,eslm".split(",").index(k), l, m, i]:.2f}e-9')
    C, S, t, kw, gia_str, base, Mx, oC, oS = anomalies(c, gs, gs, L, M, mean, gia, remove, ocean, destripe, value, 1e-13)
    if kind != 'data':
        A, B = np.zeros((L+1, Mx+1, len(gs))), np.zeros((L+1, Mx+1, len(gs)))
        for l in range(min(L, 3)+1):
            for m in range(min(l, Mx)+1):
                A[l, m] = pat[0, l, m]*1e-9
                B[l, m] = pat[1, l, m]*1e-9 if m else 0.0
        A, B = A - A.mean(axis=2, keepdims=True), B - B.mean(axis=2, keepdims=True)
    order = f'M{M}' if M else ''
    tag = f'L{L}{order}{"_FL" if destripe else ""}_{gs[0]:03d}-{gs[-1]:03d}'
    delta = base/'CSR'/'RL06'/'GSM'/f'CSR_RL06_GSM_DELTA_CLM_{tag}.{EXT[fmt]}'
    z = 1.0
    if kind == 'noise':
        n = len(gs) - 12
    else:
        z = c.real('noise', 0.5, 2)
        n = 7
        a, b = noise_file(c, base, tag, fmt, L, Mx, L, n, z)
    lon, lat = np.array([20.0, 100.0, 250.0]), np.array([60.0, -10.0])
    bad = (1, 2)
    K = {k: c.zeros((2, 3)) for k in ('kfactor', 'error', 'power')}
    for i in np.ndindex(2, 3):
        for k, Z in K.items():
            Z[i] = FILL if i == bad else 1.0 + i[0] + 0.5*i[1] if kind == 'data' else c.real(f'{k}{i}', 0.5, 2)
    write_factors(c, base/'factors', fmt, K, lon, lat)
    R = P.scale_grace_maps(str(base), 'CSR', 'RL06', 'GSM', L, rad, START=gs[0], END=gs[-1], MISSING=[g for g in range(gs[0], gs[-1]) if g not in gs], LMIN=lmin, MMAX=M, REFERENCE='CF', DESTRIPE=destripe, DDEG=[90.0], INTERVAL=2, DATAFORM=fmt, SCALE_FILE=base/'factors', OUTPUT_DIRECTORY=base/'out', FILE_PREFIX=prefix, **kw)
    name = lambda k: base/'out'/f'{prefix or f"CSR_RL06_GSM{gia_str}_"}{k}cmwe_L{L}{order}{f"_r{rad}km" if rad else ""}{"_FL" if destripe else ""}_{gs[0]:03d}-{gs[-1]:03d}.{EXT[fmt]}'
    c.same(set(str(x) for x in R), {str(name(k)) for k in ('', 'ERROR_', 'DELTA_')} | ({str(delta)} if kind == 'noise' else set()), 'files')
    read = lambda k, date: getattr(c.gt.spatial(), 'from_' + fmt)(name(k), date=date)
    w = 2*np.pi*gauss_quadrature(rad, L)*factor(c, 1, L)
    G = read('', True)
    c.same([int(x) for x in np.atleast_1d(G.month)], gs, 'months')
    c.close(np.atleast_1d(G.time), c.arr(t), 1e-6, 'dates')
    c.close(G.lon, lon, 1e-6, 'longitudes')
    c.close(G.lat, lat, 1e-6, 'latitudes')
    nt = len(gs)
    D = G.data.reshape(2, 3, nt)
    E = read('ERROR_', False)
    V = read('DELTA_', True)
    for i in np.ndindex(2, 3):
        if i == bad:
            for k, X in (('data', D[i][0]), ('error', E.data[i]), ('delta', V.data[i])):
                c.close(X, FILL, 1e-6, f'no factor: {k}')
            continue
        T = plm_table(L, Mx, [lat[i[0]]])
        x = []
        for j in range(nt):
            u = 0.0
            for l in range(L+1):
                for m in range(min(l, Mx)+1):
                    p = float(T[l, m, 0])*w[l]
                    u = u + C[l, m, j]*(p*np.cos(np.radians(m*lon[i[1]]))) + S[l, m, j]*(p*np.sin(np.radians(m*lon[i[1]])))
            x.append(u)
            c.close(D[i][j], K['kfactor'][i]*u, 1e-6, 'scaled map')
        if kind == 'data':
            continue
        y = []
        for j in range(nt):
            y.append(sum(float(T[l, m, 0])*w[l]*(A[l, m, j]*np.cos(np.radians(m*lon[i[1]])) + B[l, m, j]*np.sin(np.radians(m*lon[i[1]]))) for l in range(min(L, 3)+1) for m in range(min(l, Mx)+1)))
        c.close(E.data[i]*K['power'][i], K['kfactor'][i]*K['error'][i]*(s*float(np.sqrt(np.sum(np.square(y))))), 1e-6, 'error of the factors')
    if kind == 'data':
        return
    if kind == 'noise':
        u = np.array([float(x) for x in t])
        for X, Z in ((A, 'a'), (B, 'b')):
            r = np.zeros((L+1, Mx+1))
            for l in range(L+1):
                for m in range(min(l, Mx)+1):
                    r[l, m] = smoothed_noise(u, X[l, m])
            if Z == 'a':
                a = r
            else:
                b = r
        z = s
    e = error_map(L, Mx, lmin, lon, lat, a, b, w, n)
    k = float(np.abs(e).max())
    for i in np.ndindex(2, 3):
        if i != bad:
            c.close(V.data[i]/k, K['kfactor'][i]*z*(e[i]/k), 1e-6, 'error of the maps')

def write_factors(c, f, fmt, K, lon, lat):
    Z = c.gt.scaling_factors(fill_value=FILL)
    Z.lon, Z.lat = lon, lat
    Z.data, Z.error, Z.magnitude = K['kfactor'], K['error'], K['power']
    Z.mask = np.array([[False, False, False], [False, False, True]])
    names = dict(lon='lon', lat='lat', data='kfactor', error='error', magnitude='power')
    getattr(Z, 'to_' + fmt)(f, date=False, field_mapping=names, attributes={k: {} for k in ['ROOT', *names.values()]})

doc('C38', 'maximum degrees 2 to 24, two to 36 months, grids of up to 19 by 19 nodes, errors proportional to one free scale; values of files limited to their digits',
    ['coefficients of the months are read, corrected and filtered as C33 and C35 describe', 'ascii output of scaled maps is not covered: the ascii grid format holds a single map'])
