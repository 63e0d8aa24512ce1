"""C42 programs for summaries, fingerprints of files and indices"""
import contextlib, io, pathlib
import numpy as np
from symx.harness import harness, doc
from props.hutil import *
from props.C12 import earth, RAD, RHO
from props.C22 import path
from props.C26 import dates
from props.C34 import EXT
from props.C36 import TIDES

def rows(c, text):
    """sections of a summary: labels, numbers and units of their lines"""
    out, name, formula = {}, None, None
    for line in text.splitlines():
        p = [x.strip() for x in line.split('\t')]
        if line.startswith('Regression Formula:'):
            formula = line.split(':', 1)[1].strip()
        elif line.startswith('Input File:'):
            out['file'] = line.split(':', 1)[1].strip()
        elif len(p) > 1 and p[0].endswith('.') or p[0] == 'Phase':
            name = p[0]
            out[name] = []
        elif line.startswith('Fit Criterion'):
            name = 'fit'
            out[name] = {}
        elif name == 'fit' and ':' in line:
            k, v = line.split(':')
            out[name][k.strip()] = c.np.loadtxt([v], ndmin=1)[0]
        elif name and len(p) == 5:
            out[name].append((p[0], c.np.loadtxt([' '.join(p[1:4])], ndmin=1), p[4]))
    return out, formula

def terms(ts, t, cycles):
    """seasonal cycles, extra terms and names of coefficients and amplitudes in the order of the fit"""
    seasons = [y for y in cycles if y in (0.5, 1.0)]
    T, names, amps = [], [], []
    for y in seasons:
        names += ['SS', 'SC'] if y == 0.5 else ['AS', 'AC']
        amps.append('SEMI' if y == 0.5 else 'ANN')
    for y in cycles:
        for k, p in TIDES.items():
            if abs(y - p/365.25) < 1e-6:
                T.extend(ts.aliasing_terms(t, period=p))
                names += [f'{k}SGRC', f'{k}CGRC', f'{k}SGFO', f'{k}CGFO']
                amps += [f'{k}GRC', f'{k}GFO']
    return seasons, T, names, amps

RC = [dict(n=n, order=o, brk=b, cycles=y, header=h, stream=s, units=u) for n, o, b, y, h, s, u in (
    (12, 1, None, [1.0], 0, False, 'Gt'), (14, 2, None, [0.5, 1.0], 2, True, 'cm'), (16, 0, None, [], 1, False, 'Gt'), (20, None, 9, [1.0, 0.5], 0, False, 'Gt'), (30, None, 15, [0.5, 1.0, 161.0/365.25], 3, True, 'mm'),
    (30, 1, None, [161.0/365.25, 1.0], 0, False, 'Gt'), (36, 1, None, [171.2/365.25, 0.5, 322.1/365.25, 1.0], 0, False, 'Gt'), (36, 2, None, [1.0, 2725.4/365.25], 1, False, 'Gt'), (36, None, 20, [1362.7/365.25, 9.1/365.25, 1.0], 0, False, 'Gt'),
    (36, 1, None, [13.6/365.25, 27.8/365.25, 0.5], 0, False, 'Gt'), (34, 0, None, [0.5, 13.5/365.25], 0, False, 'Gt'), (210, 2, None, [1.0, 0.5], 0, False, 'Gt'), (190, None, 120, [0.5, 1.0], 1, False, 'Gt'))]

@harness('C42', configs=RC, mix=8, ok=lambda n, order, brk, cycles, **k: (order is None) != (brk is None) and any((d['n'], d['cycles'], d['brk']) == (n, cycles, brk) for d in RC))
def summary(c, n, order, brk, cycles, header, stream, units):
    """summary of the fit of a series kept in a file"""
    P = c.script('quick_mascon_regress')
    base = pathlib.Path(c.tmpdir())
    s = c.int('s', 1, 9)
    t = dates(n, 4)
    if TIDES and any(y not in (0.5, 1.0) for y in cycles):
        t[n//2:] += 15.0
    t = np.round(t, 4)
    months = [4 + int((x - 2002.29)*12) + 2*0 for x in t]
    months = list(range(4, 4 + n)) if len(set(months)) < n else months
    rng = np.random.default_rng(n)
    x = np.round(rng.uniform(-500, 500, n)) + 100*np.arange(n)
    d = c.arr(x)*s
    f = base/'HEX_SUMMARY_TS.dat'
    f.write_text('# header\n'*header + ''.join(f'{g:03d} {y:12.4f} {v:16d} {1.5:8.3f}\n' for g, y, v in zip(months, t, [s*int(q) for q in x])))
    g = months[brk] if brk else None
    if stream:
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            P.run_regress(f, header=header, order=order, breakpoint=g, cycles=list(cycles), units=units, stream=True)
        text = b.getvalue()
        c.same(sorted(z.name for z in base.iterdir()), [f.name], 'files')
    else:
        P.run_regress(f, header=header, order=order, breakpoint=g, cycles=list(cycles), units=units)
        text = (base/f'HEX_SUMMARY_TS_{f"px1_{g}" if brk else f"x{order}"}_SUMMARY.txt').read_text()
    ts = c.gt.time_series
    t = c.arr(t)
    seasons, T, names, amps = terms(ts, t, cycles)
    if brk:
        F = ts.piecewise(t, d, BREAKPOINT=brk, CYCLES=seasons, TERMS=T)
        trend, unit = ['x0', 'px1', 'px1'], ['', ' yr^-1', ' yr^-1']
    else:
        F = ts.regress(t, d, ORDER=order, CYCLES=seasons, TERMS=T)
        trend, unit = [f'x{k}' for k in range(order+1)], ['', ' yr^-1', ' yr^-2'][:order+1]
    R, formula = rows(c, text)
    c.same(R['file'], f.name, 'input file')
    c.same(formula, '+'.join(trend + names), 'formula')
    c.same([(k, u) for k, _, u in R['Coef.']], list(zip(trend + names, [units + u for u in unit] + [units]*len(names))), 'names and units of coefficients')
    tol = 6e-5
    for i, (k, v, _) in enumerate(R['Coef.']):
        for j, q in enumerate(('beta', 'std_err', 'error')):
            c.close(v[j]/s, F[q][i]/s, tol, f'{k}: {q}')
    c.same([(k, u) for k, _, u in R['Ampl.']], [(k, units) for k in amps], 'names and units of amplitudes')
    c.same([(k, u) for k, _, u in R['Phase']], [(k, 'Degree') for k in amps], 'names and units of phases')
    for i in range(len(amps)):
        k = len(trend) + 2*i
        a, b = F['beta'][k], F['beta'][k+1]
        A = c.np.sqrt((a/s)**2 + (b/s)**2)
        p = 180.0*c.np.arctan2(b, a)/np.pi
        if c.pick(p < 0):
            p = p + 360.0
        c.close(R['Ampl.'][i][1][0]/s, A, tol, f'{amps[i]}: amplitude')
        c.close(R['Phase'][i][1][0], p, tol, f'{amps[i]}: phase')
        for j, q in enumerate(('std_err', 'error')):
            ea, eb = F[q][k], F[q][k+1]
            c.close(R['Ampl.'][i][1][j+1]/s, c.np.sqrt((a*ea/s**2)**2 + (b*eb/s**2)**2)/A, 1e-4, f'{amps[i]}: {q} of the amplitude')
            c.close(R['Phase'][i][1][j+1], 180.0/np.pi*c.np.sqrt((b*ea/s**2)**2 + (a*eb/s**2)**2)/A**2, 1e-4, f'{amps[i]}: {q} of the phase')
    c.close(R['fit']['DOF'], F['DOF'], 0, 'degrees of freedom')
    for k in ('AIC', 'BIC', 'LOGLIK', 'NRMSE', 'R2', 'R2Adj'):
        c.close(R['fit'][k], F[k], 1e-5, k)
    c.close(R['fit']['MSE']/s**2, F['MSE']/s**2, 1e-5, 'MSE')

SC = [dict(fmt=f, L=L, LF=lf, nlon=a, nlat=b, it=i, polar=p, body=bo, fluid=fl, n=n, date=d, love=lo, ref=r) for f, L, lf, a, b, i, p, bo, fl, n, d, lo, r in (
    ('netCDF4', 3, 3, 7, 5, 1, True, 0, 0, 1, False, 0, 'CF'), ('HDF5', 2, 4, 6, 4, 2, False, 1, 2, 1, False, 2, 'CF'), ('ascii', 3, 4, 6, 5, 1, True, 0, 3, 1, False, 1, 'CE'),
    ('netCDF4', 2, 3, 6, 5, 1, True, 1, 1, 3, True, 0, 'CF'), ('HDF5', 2, 2, 5, 4, 1, True, 0, 0, 2, True, 0, 'CE'), ('netCDF4', 2, 2, 6, 4, 1, False, 0, 0, 1, True, 0, 'CF'))]

@harness('C42', configs=SC, mix=8, ok=lambda fmt, L, LF, n, date, nlon, nlat, **k: LF >= L and (n == 1 or (date and fmt != 'ascii')) and not (date and fmt == 'ascii'))
def fingerprints(c, fmt, L, LF, nlon, nlat, it, polar, body, fluid, n, date, love, ref):
    """sea level of a file of loads"""
    P = c.script('run_sea_level_equation')
    base = pathlib.Path(c.tmpdir())
    lon = np.arange(nlon)*360.0/nlon
    lat = 90.0 - 180.0/nlat*(0.5 + np.arange(nlat))
    rng = np.random.default_rng(nlon)
    level = rng.integers(0, 5, (nlat, nlon))
    level[0, 0], level[1, :5] = 0, [0, 1, 2, 3, 4]
    c.mod('spatial')
    m = c.gt.spatial(fill_value=FILL)
    m.lon, m.lat, m.data, m.mask = c.arr(lon), c.arr(lat), c.arr(level.astype(float)), c.arr(np.zeros(level.shape, dtype=bool))
    m.to_netCDF4(base/'mask.nc', date=False, varname='LSMASK')
    Y = c.gt.harmonics(lmax=LF, mmax=LF)
    sh = (LF+1, LF+1) + (() if n == 1 else (n,))
    Y.clm, Y.slm = c.zeros(sh), c.zeros(sh)
    s = [c.int(f's{i}', 1, 9) for i in range(n)]
    for l in range(LF+1):
        for k in range(l+1):
            for i in range(n):
                j = (l, k) + (() if n == 1 else (i,))
                Y.clm[j] = s[i]*float(np.round(rng.uniform(-9, 9), 2)*1e-9)
                Y.slm[j] = s[i]*float(np.round(rng.uniform(-9, 9), 2)*1e-9)*(k > 0)
    g, t = month_time(n)
    if date:
        Y.month, Y.time = (np.int64(g[0]), np.float64(t[0])) if n == 1 else (c.arr(g), c.arr(t))
    C, S = Y.clm.copy(), Y.slm.copy()
    getattr(Y, 'to_' + fmt)(base/'in', date=date)
    P.run_sea_level_equation(base/'in', base/'out', LANDMASK=base/'mask.nc', LMAX=L, LOVE_NUMBERS=love, BODY_TIDE_LOVE=body, FLUID_LOVE=fluid, REFERENCE=ref, ITERATIONS=it, POLAR=polar, DATAFORM=fmt, DATE=date)
    land = (level > 0) & (level < 4)
    love = c.gt.load_love_numbers(L, LOVE_NUMBERS=love, REFERENCE=ref, FORMAT='class')
    if fmt == 'ascii':
        Z = c.gt.spatial(fill_value=0).from_ascii(base/'out', date=False, spacing=[360.0/nlon, 180.0/nlat], extent=[lon[0], lon[-1], lat[-1], lat[0]])
    else:
        Z = getattr(c.gt.spatial(), 'from_' + fmt)(base/'out', date=date)
    c.close(Z.lon, lon, 1e-4, 'longitudes')
    c.close(Z.lat, lat, 1e-4, 'latitudes')
    c.same(tuple(Z.data.shape), (nlat, nlon) + (() if n == 1 else (n,)), 'shape')
    if date:
        c.close(c.array(Z.time), t if n > 1 else t[0], 1e-6, 'dates')
    for i in range(n):
        j = () if n == 1 else (i,)
        R = c.gt.sea_level_equation(C[(slice(L+1), slice(L+1)) + j], S[(slice(L+1), slice(L+1)) + j], c.arr(lon), c.arr(lat), c.arr(land.T.astype(float)), LMAX=L, LOVE=love, BODY_TIDE_LOVE=body, FLUID_LOVE=fluid, POLAR=polar, ITERATIONS=it, FILL_VALUE=0)
        c.close(Z.data[(slice(None), slice(None)) + j], R.T, 6e-5 if fmt == 'ascii' else 1e-7, f'sea level {i}')

PRODUCTS = [('CSR', 'RL06', 'GSM', '{s}_{m}_UTCSR_BA01_06{v:02d}', '{s}_{m}_UTCSR_BB01_06{v:02d}'), ('GFZ', 'RL06', 'GSM', '{s}_{m}_GFZOP_BA01_06{v:02d}', '{s}_{m}_GFZOP_BB01_06{v:02d}'), ('JPL', 'RL06', 'GSM', '{s}_{m}_JPLEM_BA01_06{v:02d}', '{s}_{m}_JPLEM_BC01_06{v:02d}'),
    ('JPL', 'RL06', 'GAD', '{s}_{m}_JPLEM_BC01_06{v:02d}', None), ('CSR', 'RL06', 'GAC', '{s}_{m}_UTCSR_BC01_06{v:02d}', None), ('CSR', 'RL05', 'GSM', '{s}_0021_UTCSR_0060_0005', '{s}_0021_UTCSR_0096_0005'), ('JPL', 'RL05', 'GSM', '{s}_0021_JPLEM_0001_0005', '{s}_0021_JPLEM_0000_0005')]

@harness('C42', configs=[dict(k=k) for k in range(len(PRODUCTS))])
def index(c, k):
    """files of an index: of the product, one for every span of dates"""
    P = c.script('make_grace_index')
    proc, rl, ds, form, other = PRODUCTS[k]
    base = pathlib.Path(c.tmpdir())
    d = base/proc/rl/ds
    d.mkdir(parents=True)
    spans = [('GRAC', 0, '2002095-2002120'), ('GRAC', 0, '2003001-2003031'), ('GRFO', 1, '2018152-2018181'), ('GRFO', 1, '2019001-2019031')]
    e = []
    for i, (m, v, s) in enumerate(spans):
        if c.pick(c.bool(f'has{i}')):
            f = f'{ds}-2_' + form.format(s=s, m=m, v=v)
            if i % 2:
                f += '.gz'
            (d/f).touch()
            e.append(f)
    junk = ['index.txt', 'notes.txt', ('GAC' if ds == 'GSM' else 'GSM') + '-2_' + form.format(s=spans[0][2], m='GRAC', v=0)]
    if other:
        junk += [f'{ds}-2_' + other.format(s=s, m=m, v=v) for m, v, s in spans[1:3]]
        if rl == 'RL06':
            junk += [f'{ds}-2_' + form.format(s=spans[0][2], m='GRAC', v=2), f'{ds}-2_' + form.format(s=spans[2][2], m='GRFO', v=0)]
    for f in junk:
        if c.pick(c.bool('junk')):
            (d/f).write_text('old\n')
    P.make_grace_index(base, PROC=['GFZ', 'CSR', 'JPL'], DREL=['RL05', 'RL06'], DSET=['GAC', 'GAD', 'GSM'], VERSION=['0', '1'], MODE=0o644)
    c.same((d/'index.txt').read_text().split(), sorted(e), 'index')
    c.same([str(x.relative_to(base)) for x in sorted(base.rglob('index.txt'))], [f'{proc}/{rl}/{ds}/index.txt'], 'indices')

@harness('C42', configs=[dict(drel=d) for d in (['RL06'], ['RL05', 'RL06'], ['RL06', 'v02.4'])])
def lists(c, drel):
    """products whose dates are listed, then months of the releases"""
    P = c.script('run_grace_date')
    base = pathlib.Path(c.tmpdir())
    calls = []
    old = c.gt.grace_date, c.gt.grace_months_index
    c.gt.grace_date = lambda d, **kw: calls.append((str(d), kw['PROC'], kw['DREL'], kw['DSET'], kw['OUTPUT'], kw['MODE']))
    c.gt.grace_months_index = lambda d, **kw: calls.append((str(d), tuple(kw['DREL']), kw['MODE']))
    try:
        use = [p for p in ('CSR', 'GFZ', 'JPL') if c.pick(c.bool(p))]
        P.run_grace_date(base, use, drel, MODE=0o700)
    finally:
        c.gt.grace_date, c.gt.grace_months_index = old
    e = [(str(base), p, r, s, True, 0o700) for p in use for r in drel if r.startswith('RL') for s in (['GAC', 'GAD', 'GSM'] if p == 'CSR' else ['GAA', 'GAB', 'GAC', 'GAD', 'GSM'])]
    c.same(sorted(calls[:-1]), sorted(e), 'products')
    c.same(calls[-1], (str(base), tuple(drel), 0o700), 'months')

@harness('C42', configs=[dict(L=L) for L in (1, 2, 30, 60, 96)])
def resolution(c, L):
    """half wavelength of the highest degree and diameter of the smallest cap"""
    P = c.script('calc_harmonic_resolution')
    r = c.real('r', 1000, 8000)
    c.close(P.calc_harmonic_resolution(L, RADIUS=r), r*float(np.pi/L), 1e-7, 'half wavelength')
    c.close(P.calc_harmonic_resolution(L, RADIUS=r, SPH_CAP=True), r*float(4.0*np.arcsin(1.0/(L+1))), 1e-7, 'cap')
    c.close(P.calc_harmonic_resolution(L), 6371.0008*np.pi/L, 1e-7, 'mean radius')
    l = c.int('l', 1, 200)
    c.close(P.calc_harmonic_resolution(l, RADIUS=r)*l, r*np.pi, 1e-4, 'half wavelength of any degree')

doc('C42', 'series of 12 to 36 values: a pattern times a free factor, listed orders, cycles and break points; loads: patterns times a free factor, degrees to 4, grids to 5 x 7, up to two iterations; every subset of four monthly files and of other files in the folder of listed products; any radius', ['the values of fits and of sea level are those of the library (C24, C26) for the same input', 'the CM frame is left out of the sea level programs: degree one of its load Love numbers is -1, the geoid of a load has no degree one there, and the programs return no number'])
