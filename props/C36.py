"""C36 programs fitting regressions to monthly maps"""
import pathlib
import numpy as np
from symx.harness import harness, doc
from props.hutil import *
from props.C34 import EXT, nodes

UNITS = ['norm', 'cmwe', 'mmGH', 'mmCU', 'microGal', 'mbar']
TIDES = dict(Q1=9.1, O1=13.6, P1=171.2, S1=322.1, K1=2725.4, J1=27.8, M2=13.5, S2=161.0, K2=1362.7)
MISSING = [6, 7, 18, 109, 114, 125, 130, 135, 140, 141, 146, 151, 156, 162, 166, 167, 172, 177, 178, 182] + list(range(187, 198)) + [200, 201]

def inputs(c, fmt, months, pre, units, L, tail, ddeg, interval, bounds, free):
    """monthly maps; values of free cells are a pattern times a free scale"""
    base = pathlib.Path(c.tmpdir())
    lon, lat = nodes(ddeg, interval, bounds)
    if interval < 3:
        lon = lon - 180.0
    rng = np.random.default_rng(7)
    X = c.zeros((len(lat), len(lon), len(months)))
    for i in np.ndindex(len(lat), len(lon)):
        p = rng.uniform(-5, 5, len(months))
        s = 1 if i not in free else c.int(f's{list(i)}', 1, 4) if fmt == 'ascii' else c.real(f's{list(i)}', 0.5, 2)
        for j in range(len(months)):
            X[i + (j,)] = s*(int(np.round(p[j]*3)) if fmt == 'ascii' else float(np.round(p[j], 2)))
    t = [2002.0 + (g - 0.5 + 0.1*((g*7) % 5 - 2)/2)/12.0 for g in months]
    for j, g in enumerate(months):
        m = c.gt.spatial(fill_value=FILL)
        m.lon, m.lat, m.data = c.arr(lon), c.arr(lat), X[:, :, j].copy()
        m.mask = c.arr(np.zeros(m.data.shape, dtype=bool))
        m.time, m.month = np.float64(t[j]), np.int64(g)
        getattr(m, 'to_' + fmt)(base/f'{pre}{units}_L{L}{tail}_{g:03d}.{EXT[fmt]}')
    return base, lon, lat, X, c.arr(t)

def reread(c, base, lon, lat, months, stem):
    """dates of ascii maps"""
    grid = dict(spacing=[lon[1]-lon[0], lat[0]-lat[1]], extent=[lon[0], lon[-1], lat[-1], lat[0]])
    return c.arr([float(c.gt.spatial().from_ascii(base/f"{stem}_{g:03d}.txt", **grid).time) for g in months])

def labels(cycles):
    """names of the terms of a fit in the order of its coefficients, of its amplitudes, and periods and tides fitted"""
    terms, amps = [], []
    seasons = [y for y in cycles if y in (0.5, 1.0)]
    for y in seasons:
        a, b = ('SS', 'SEMI') if y == 0.5 else ('AS', 'ANN')
        terms += [a, a[0] + 'C']
        amps.append(b)
    tides = [k for y in cycles for k, p in TIDES.items() if abs(y - p/365.25) < 1e-6]
    for k in tides:
        terms += [f'{k}SGRC', f'{k}CGRC', f'{k}SGFO', f'{k}CGFO']
        amps += [f'{k}GRC', f'{k}GFO']
    return terms, amps, seasons, tides

def check(c, fmt, f, lon, lat, data, error, label, tol=1e-7, square=False):
    if fmt == 'ascii':
        Z = c.gt.spatial(fill_value=FILL).from_ascii(f, date=False, spacing=[lon[1]-lon[0], lat[0]-lat[1]], extent=[lon[0], lon[-1], lat[-1], lat[0]], **({} if error is None else dict(columns=['lon', 'lat', 'data', 'e'])))
        if error is not None:
            W = c.gt.spatial(fill_value=FILL).from_ascii(f, date=False, spacing=[lon[1]-lon[0], lat[0]-lat[1]], extent=[lon[0], lon[-1], lat[-1], lat[0]], columns=['lon', 'lat', 'e', 'data'])
            Z.error = W.data
        tol += 6e-5
    elif error is not None:
        Z = getattr(c.gt.spatial(), 'from_' + fmt)(f, date=False, field_mapping=dict(lon='lon', lat='lat', data='data', error='error'))
    else:
        Z = getattr(c.gt.spatial(), 'from_' + fmt)(f, date=False, varname='data')
    c.close(Z.lon, lon, 1e-4, label + ': longitudes')
    c.close(Z.lat, lat, 1e-4, label + ': latitudes')
    c.close(Z.data, data, tol, label)
    if error is not None:
        c.close(Z.error, error, tol, label + ': error')

def outputs(c, fmt, R, base, lon, lat, fits, names, amps, first, keep, npoly, signif, stem):
    """files of every coefficient, amplitude, phase and statistic"""
    sh = (len(lat), len(lon))
    def table(g):
        e = c.zeros(sh)
        for i in np.ndindex(*sh):
            e[i] = g(fits[i])
        return e
    files = [base/stem(*n) for n in names]
    amp_files = [base/stem(*n) for n in amps]
    sig_files = [base/stem(*n) for n in signif]
    c.same([str(f) for f in R], [str(f) for f in files + amp_files + sig_files], 'files')
    for k, f in enumerate(files):
        check(c, fmt, f, lon, lat, table(lambda r: r['beta'][k]), table(lambda r: r['error'][k]), f'coefficient {names[k][0]}')
    for q in range(len(amp_files)//2):
        k = npoly + 2*q
        A, P, EA, EP = (c.zeros(sh) for _ in range(4))
        for i in np.ndindex(*sh):
            a, b, ea, eb = fits[i]['beta'][k], fits[i]['beta'][k+1], fits[i]['error'][k], fits[i]['error'][k+1]
            A[i] = c.np.sqrt(a**2 + b**2)
            p = 180.0*c.np.arctan2(b, a)/np.pi
            P[i] = p + 360.0 if c.pick(p < 0) else p
            EA[i] = c.np.sqrt((a*ea)**2 + (b*eb)**2)/A[i]
            EP[i] = 180.0/np.pi*c.np.sqrt((b*ea)**2 + (a*eb)**2)/A[i]**2
        check(c, fmt, amp_files[2*q], lon, lat, A, EA, f'amplitude {amps[2*q][0]}', 1e-6)
        check(c, fmt, amp_files[2*q+1], lon, lat, P, EP, f'phase {amps[2*q][0]}', 1e-5)
    for f, (k, g) in zip(sig_files, (('SSE', lambda r: r['MSE']*r['DOF']), ('AIC', lambda r: r['AIC']), ('BIC', lambda r: r['BIC']), ('R2Adj', lambda r: r['R2Adj']))):
        check(c, fmt, f, lon, lat, table(g), None, k, 1e-6)

LATE = [g for g in range(150, 216) if g not in MISSING]
G1 = [g for g in range(4, 26) if g not in MISSING]
RG = [dict(fmt=f, months=m, order=o, cycles=y, ddeg=s, interval=i, bounds=b, units=u, rad=r, M=M, destripe=d) for f, m, o, y, s, i, b, u, r, M, d in (
    ('netCDF4', G1[:14], 1, [0.5, 1.0], [180.0, 90.0], 2, None, 1, 0, None, False), ('HDF5', G1, 2, [1.0], [30.0, 15.0], 3, [-60.0, 0.0, 0.0, 30.0], 2, 300, 2, True), ('netCDF4', G1[:8], 0, [], [180.0], 1, None, 3, 500, None, True),
    ('netCDF4', [g for g in range(150, 216) if g not in MISSING], 1, [0.5, 1.0, 161.0/365.25], [30.0], 3, [30.0, 90.0, -30.0, 30.0], 5, 0, None, False),
    ('ascii', G1[:10], 1, [1.0], [180.0, 90.0], 2, None, 1, 0, None, False), ('ascii', G1[:10], 1, [0.5], [30.0], 3, [-60.0, 0.0, 0.0, 60.0], 1, 0, None, False), ('ascii', G1[:9], 2, [], [180.0, 90.0], 1, None, 1, 0, None, False),
    ('netCDF4', [g for g in range(150, 216) if g not in MISSING], 2, [161.0/365.25, 1.0], [30.0], 3, [30.0, 90.0, -30.0, 30.0], 4, 0, None, False),
    ('HDF5', [g for g in range(150, 216) if g not in MISSING], 1, [2725.4/365.25, 0.5, 171.2/365.25, 1.0], [15.0, 30.0], 3, [30.0, 60.0, 0.0, 60.0], 1, 0, None, False),
    ('netCDF4', LATE, 1, [9.1/365.25, 322.1/365.25, 0.5], [15.0], 3, [30.0, 60.0, 0.0, 60.0], 1, 0, None, False), ('netCDF4', LATE, 1, [1362.7/365.25, 13.6/365.25, 1.0], [15.0], 3, [30.0, 60.0, 0.0, 60.0], 1, 0, None, False),
    ('netCDF4', LATE, 0, [27.8/365.25, 13.5/365.25, 1.0], [15.0], 3, [30.0, 60.0, 0.0, 60.0], 1, 0, None, False), ('netCDF4', [g for g in range(4, 240) if g not in MISSING], 2, [1.0, 0.5], [15.0], 3, [30.0, 60.0, 0.0, 60.0], 1, 0, None, False))]

@harness('C36', configs=RG, mix=6, ok=lambda fmt, months, cycles, ddeg, interval, bounds, M, destripe, **k: fits(ddeg, interval, bounds) and any((d['months'], d['cycles'], d['fmt'] == 'ascii') == (months, cycles, fmt == 'ascii') for d in RG) and (fmt != 'ascii' or (len(ddeg) == 2 or interval == 3)))
def regressions(c, fmt, months, order, cycles, ddeg, interval, bounds, units, rad, M, destripe):
    P = c.script('regress_grace_maps')
    L = 5
    tail = (f'M{M}' if M else '') + (f'_r{rad}km' if rad else '') + ('_FL' if destripe else '')
    base, lon, lat, X, t = inputs(c, fmt, months, 'p_', UNITS[units], L, tail, ddeg, interval, bounds, [(0, 0), (1, 1)])
    R = P.regress_grace_maps(L, rad, START=months[0], END=months[-1], MISSING=MISSING, MMAX=M, DESTRIPE=destripe, UNITS=units, DDEG=ddeg, INTERVAL=interval, BOUNDS=bounds, DATAFORM=fmt, ORDER=order, CYCLES=list(cycles), OUTPUT_DIRECTORY=str(base), FILE_PREFIX='p_')
    terms, amps, seasons, tides = labels(cycles)
    ts = c.gt.time_series
    T = []
    if fmt == 'ascii':
        t = reread(c, base, lon, lat, months, f'p_{UNITS[units]}_L{L}{tail}')
    for k in tides:
        T.extend(ts.aliasing_terms(t, period=TIDES[k]))
    fits = {}
    for i in np.ndindex(len(lat), len(lon)):
        x = X[i].copy()
        fits[i] = ts.regress(t, x, ORDER=order, CYCLES=list(seasons), TERMS=T, CONF=0.95)
    poly = [f'x{k}' for k in range(order+1)]
    a, b = months[0], months[-1]
    outputs(c, fmt, R, base, lon, lat, fits, [(k, '') for k in poly + terms], [(k, s) for k in amps for s in ('_AMPL', '_PHASE')], None, None, order+1, [(k + '_', poly[-1]) for k in ('SSE', 'AIC', 'BIC', 'R2Adj')],
        lambda n, s: f'p_{UNITS[units]}_L{L}{tail}_{n}{s}_{a:03d}-{b:03d}.{EXT[fmt]}')

PG = [dict(fmt=f, months=m, brk=b, cycles=y, ddeg=s, interval=i, bounds=bo, rad=r) for f, m, b, y, s, i, bo, r in (
    ('netCDF4', G1, 13, [0.5, 1.0], [180.0, 90.0], 2, None, 0), ('HDF5', G1[:12], 8, [], [30.0, 15.0], 3, [-60.0, 0.0, 0.0, 30.0], 300), ('netCDF4', [g for g in range(150, 216) if g not in MISSING], 170, [1.0, 161.0/365.25], [30.0], 3, [30.0, 90.0, -30.0, 30.0], 0),
    ('ascii', G1[:14], 10, [1.0], [180.0, 90.0], 2, None, 0), ('netCDF4', [g for g in range(150, 216) if g not in MISSING], 171, [161.0/365.25, 0.5], [15.0, 30.0], 3, [30.0, 60.0, 0.0, 60.0], 0),
    ('netCDF4', LATE, 170, [2725.4/365.25, 322.1/365.25, 1.0], [15.0], 3, [30.0, 60.0, 0.0, 60.0], 0), ('netCDF4', LATE, 173, [171.2/365.25, 9.1/365.25, 0.5], [15.0], 3, [30.0, 60.0, 0.0, 60.0], 0),
    ('netCDF4', LATE, 173, [13.6/365.25, 27.8/365.25, 1.0], [15.0], 3, [30.0, 60.0, 0.0, 60.0], 0), ('netCDF4', LATE, 168, [1362.7/365.25, 13.5/365.25], [15.0], 3, [30.0, 60.0, 0.0, 60.0], 0),
    ('ascii', G1[:12], 9, [0.5], [30.0], 3, [-60.0, 0.0, 0.0, 60.0], 0), ('HDF5', [g for g in range(4, 240) if g not in MISSING], 150, [0.5, 1.0], [15.0], 3, [30.0, 60.0, 0.0, 60.0], 0))]

@harness('C36', configs=PG, mix=6, ok=lambda fmt, months, brk, cycles, ddeg, interval, bounds, **k: fits(ddeg, interval, bounds) and any((d['months'], d['cycles'], d['brk'], d['fmt'] == 'ascii') == (months, cycles, brk, fmt == 'ascii') for d in PG))
def pieces(c, fmt, months, brk, cycles, ddeg, interval, bounds, rad):
    P = c.script('piecewise_grace_maps')
    L = 5
    tail = f'_r{rad}km' if rad else ''
    base, lon, lat, X, t = inputs(c, fmt, months, 'p_', 'cmwe', L, tail, ddeg, interval, bounds, [(0, 0), (1, 1)])
    R = P.piecewise_grace_maps(L, rad, START=months[0], END=months[-1], MISSING=MISSING, BREAKPOINT=brk, UNITS=1, DDEG=ddeg, INTERVAL=interval, BOUNDS=bounds, DATAFORM=fmt, CYCLES=list(cycles), OUTPUT_DIRECTORY=base, FILE_PREFIX='p_')
    terms, amps, seasons, tides = labels(cycles)
    ts = c.gt.time_series
    T = []
    if fmt == 'ascii':
        t = reread(c, base, lon, lat, months, f'p_cmwe_L{L}{tail}')
    for k in tides:
        T.extend(ts.aliasing_terms(t, period=TIDES[k]))
    fits = {}
    for i in np.ndindex(len(lat), len(lon)):
        fits[i] = ts.piecewise(t, X[i].copy(), BREAKPOINT=months.index(brk), CYCLES=list(seasons), TERMS=T, CONF=0.95)
    a, b = months[0], months[-1]
    names = [('x0', a, b), ('px1', a, brk), ('px1', brk, b)] + [(k, a, b) for k in terms]
    outputs(c, fmt, R, base, lon, lat, fits, names, [(k + s, a, b) for k in amps for s in ('', '_PHASE')], None, None, 3, [(k + '_px1', a, b) for k in ('SSE', 'AIC', 'BIC', 'R2Adj')],
        lambda n, x, y: f'p_cmwe_L{L}{tail}_{n}_{x:03d}-{y:03d}.{EXT[fmt]}')

doc('C36', 'every cell of grids to 2 x 5 with two cells scaled by free factors (values by file rounding for ascii), spans of 8 to 60 months, listed orders, cycles and grids', ['the values of the fits are those of time_series.regress and piecewise (C26) on the same series'])
