"""C37 programs estimating mascons"""
import pathlib
import numpy as np
from symx.harness import harness, doc
from props.hutil import *
from props.oracles import *
from props.C11 import quadrature
from props.C23 import write_mask, BASE
from props.C34 import love, nodes, EXT, RAD, RHO, write
from props.C31 import coefs, write as gia_write
from props.C35 import anomalies, month

def ocean(c, base, L, M):
    """land-sea mask and coefficients of a unit of water over the ocean"""
    D = np.array(BASE)[:4]
    mlon, mlat = 30.0 + 60.0*np.arange(6), 67.5 - 45.0*np.arange(4)
    f = write_mask(c, D, mlon, mlat, 'LSMASK')
    k = love(c, L)[1]
    fac = [3*(1 + k[i])/(2*i+1)/(4*np.pi*RAD*RHO)*1e9 for i in range(L+1)]
    oC, oS = quadrature(c, (1.0*((D < 1) | (D > 3))).T, list(mlon), list(mlat), np.cos(np.radians(mlat))*np.radians(60.0)*np.radians(45.0), L, M, 0, fac)
    return f, oC, oS

def kernels(c, base, fmt, n, LF, L, M, free, oC=None, oS=None):
    """files of the mascons, their coefficients (after redistribution) and masses of 1 cm of water in g; total mass free where asked"""
    rng = np.random.default_rng(11)
    names, files, CM, SM, mass = [], [], [], [], []
    for k in range(n):
        Y = c.gt.harmonics(lmax=LF, mmax=LF)
        a, b = np.tril(rng.uniform(-3, 3, (LF+1, LF+1))), np.tril(rng.uniform(-3, 3, (LF+1, LF+1)))
        b[:, 0] = 0.0
        a[0, 0] = 1.0 + k
        Y.clm, Y.slm = c.arr(a*1e-10), c.arr(b*1e-10)
        if free:
            Y.clm[0, 0] = c.real(f'mass{k}', 0.5, 4)*1e-10
        names.append(f'basin_{"xyzw"[k]}')
        f = base/f'{names[-1]}_L{LF}.{EXT[fmt]}'
        write(c, Y, fmt, f, False)
        files.append(str(f))
        C, S = Y.clm[:L+1, :M+1].copy(), Y.slm[:L+1, :M+1].copy()
        mass.append(4*np.pi*RAD**3*RHO/3*Y.clm[0, 0])
        if oC is not None:
            q = Y.clm[0, 0]/oC[0, 0]
            C, S = C - q*oC, S - q*oS
        CM.append(C)
        SM.append(S)
    (base/'mascons.txt').write_text('# list of mascons\n\n' + '\n'.join(files[:1]) + '\n% other\n' + '\n'.join(files[1:]) + '\n')
    return [x.upper() for x in names], CM, SM, mass

def rows(lmin, L, M):
    """coefficients of a fit"""
    return [('C', l, m) for l in range(lmin, L+1) for m in range(min(l, M)+1)] + [('S', l, m) for l in range(lmin, L+1) for m in range(1, min(l, M)+1)]

def estimator(c, CM, SM, lmin, L, M, rad, method):
    """matrix giving the amplitudes of mascons from coefficients: weighted least squares"""
    k = love(c, L)[1]
    r = rows(lmin, L, M)
    w = 2*np.pi*gauss_quadrature(rad, L)
    W = np.array([w[l]*((2*l+1)/(1 + k[l]) if method == 1 else 1.0) for s, l, m in r])
    A = np.array([[float((C if s == 'C' else S)[l, m]) for C, S in zip(CM, SM)] for s, l, m in r])
    return np.linalg.pinv(W[:, None]*A)*W[None, :], r

MC = [dict(gs=g, L=L, M=M, lmin=mi, n=n, fmt=f, mf=x, rad=r, method=me, solver=s, mean=mn, gia=gi, remove=rm, oc=o, destripe=d, recon=rc, free=fr) for g, L, M, mi, n, f, x, r, me, s, mn, gi, rm, o, d, rc, fr in (
    ([4, 5, 8], 3, None, 1, 2, 'netCDF4', 'netCDF4', 0, 1, 'lstsq', None, None, None, False, False, False, True),
    ([4, 5], 3, 2, 0, 3, 'HDF5', 'ascii', 500, 1, 'gelsd', 'netCDF4', 'AW13-ICE6G', None, False, False, False, False),
    ([10, 11], 3, None, 2, 2, 'netCDF4', 'HDF5', 400, 2, 'gelsy', 'ascii', None, ['netCDF4'], 'removed', False, False, True),
    ([10, 11], 1, None, 1, 3, 'ascii', 'ascii', 0, 1, 'inv', None, None, None, False, False, False, False),
    ([13, 14], 3, None, 1, 2, 'netCDF4', 'netCDF4', 300, 2, 'gelss', None, 'IJ05-R2', None, 'mascons', False, True, False),
    ([13, 14], 10, None, 1, 2, 'netCDF4', 'netCDF4', 0, 1, 'lstsq', None, None, None, False, True, True, True),
    (LONG, 24, None, 1, 3, 'netCDF4', 'netCDF4', 300, 1, 'lstsq', None, None, None, False, False, False, False))]

@harness('C37', configs=MC, mix=10, ok=lambda L, M, lmin, n, fmt, solver, oc, destripe, recon, free, mean, gs, remove, gia, **k: M != L and (L > 1 or mean is None) and fmt != 'ascii' and solver != 'inv' and (L == 10) == destripe and not (free and (lmin == 0 or oc == 'mascons')) and not (recon and L == 1) and n <= 3 and not (L == 1 and free) and (L < 12) == (len(gs) < 10) and (L < 12 or not (remove or oc or gia)))
def series(c, gs, L, M, lmin, n, fmt, mf, rad, method, solver, mean, gia, remove, oc, destripe, recon, free):
    """masses of every mascon and month, with noise from a file of errors"""
    P = c.script('calc_mascon')
    C, S, t, kw, gia_str, base, Mx, _, _ = anomalies(c, gs, gs, L, M, mean, gia, remove, oc == 'removed', destripe, many(c) if L > 10 else None, deg=L if L > 10 else 3)
    out = base/'out'
    out.mkdir()
    oC = oS = None
    if oc == 'mascons':
        kw['LANDMASK'], oC, oS = ocean(c, base, L, Mx)
        kw['REDISTRIBUTE_MASCONS'] = True
    names, CM, SM, mass = kernels(c, base, mf, n, L+1, L, Mx, free, oC, oS)
    order = f'M{M}' if M else ''
    ds = '_FL' if destripe else ''
    # errors of the months
    delta = base/'CSR'/'RL06'/'GSM'/f'CSR_RL06_GSM_DELTA_CLM_L{L}{order}{ds}_{gs[0]:03d}-{gs[-1]:03d}.{EXT[fmt]}'
    E = c.gt.harmonics(lmax=L, mmax=Mx)
    s = c.real('noise', 0.5, 2)
    rng = np.random.default_rng(5)
    a, b = (c.arr(np.tril(np.round(rng.uniform(1, 3, (L+1, Mx+1)), 3))*1e-12) for _ in range(2))
    E.clm, E.slm = a*s, b*s
    E.time, E.month = np.float64(2003.0), np.int64(9)
    getattr(E, 'to_' + fmt)(delta)
    if recon:
        lines = []
        for q in range(2):
            Y = c.gt.harmonics(lmax=L, mmax=L)
            Y.clm, Y.slm = c.zeros((L+1, L+1, len(gs))), c.zeros((L+1, L+1, len(gs)))
            Y.time, Y.month = c.arr([month(g) for g in gs]), c.arr(np.array(gs))
            for l in range(min(L, 3)+1):
                for m in range(l+1):
                    for j in range(len(gs)):
                        Y.clm[l, m, j] = c.real(f'k{q}C{l},{m},{j}', 0.1, 10)*1e-9
                        Y.slm[l, m, j] = c.real(f'k{q}S{l},{m},{j}', 0.1, 10)*1e-9 if m else 0.0
            lines.append(str(write(c, Y, fmt, base/f'recon{q}.{EXT[fmt]}', True)))
            R1, R2 = Y.clm[:, :Mx+1].copy(), Y.slm[:, :Mx+1].copy()
            if destripe:
                for j in range(len(gs)):
                    W = c.gt.destripe_harmonics(R1[:, :, j].copy(), R2[:, :, j].copy(), LMAX=L, MMAX=Mx)
                    R1[:, :, j], R2[:, :, j] = W['clm'], W['slm']
            C, S = C - R1, S - R2
        (base/'recon.txt').write_text('# index\n' + '\n'.join(lines) + '\n')
        kw.update(RECONSTRUCT=True, RECONSTRUCT_FILE=str(base/'recon.txt'))
    R = P.calc_mascon(str(base), 'CSR', 'RL06', 'GSM', L, rad, START=gs[0], END=gs[-1], MISSING=[g for g in range(gs[0], gs[-1]) if g not in gs], LMIN=lmin, MMAX=M, REFERENCE='CF', DESTRIPE=destripe, DATAFORM=fmt, MASCON_FILE=str(base/'mascons.txt'), MASCON_FORMAT=mf, FIT_METHOD=method, SOLVER=solver, OUTPUT_DIRECTORY=str(out), **kw)
    tag = f'{gia_str.upper()}{"_OCN" if oc else ""}_L{L}{order}{f"_r{rad}km" if rad else ""}{ds}{"_LEAKAGE" if recon else ""}.txt'
    c.same([str(f) for f in R], [str(out/f'{k}{tag}') for k in names], 'files')
    K, r = estimator(c, CM, SM, lmin, L, Mx, rad, method)
    for k in range(n):
        T = c.np.loadtxt(R[k])
        c.same(T.shape, (len(gs), 5), 'rows and columns')
        e2 = 0.0
        for i, (x, l, m) in enumerate(r):
            e2 = e2 + (K[k, i]*(a if x == 'C' else b)[l, m]*1e11)**2
        for j, g in enumerate(gs):
            c.same(int(T[j, 0]), g, 'month')
            c.close(T[j, 1], t[gs.index(g)], 1e-4, 'date')
            y = sum(K[k, i]*(C if x == 'C' else S)[l, m, j]*1e9 for i, (x, l, m) in enumerate(r))
            c.close(T[j, 2]*1e-5, y*(mass[k]*1e-29), 1e-6, 'mass in Gt')
            c.close(T[j, 3], c.np.sqrt(e2)*s*(mass[k]*1e-26), 1e-6, 'error in Gt')
            c.close(T[j, 4], mass[k]/1e10, 1e-4, 'area in km2')

@harness('C37', configs=[dict(gs=list(range(8, 8+n)), L=L, M=M, fmt=f) for n, L, M, f in ((13, 1, None, 'netCDF4'), (14, 2, 1, 'HDF5'))])
def noise(c, gs, L, M, fmt):
    """errors of the months from the noise of the smoothed coefficients, kept for other runs"""
    P = c.script('calc_mascon')
    rng = np.random.default_rng(3)
    pat = np.round(rng.uniform(1, 9, (4, L+1, L+1, len(gs))), 2)
    sc = {}
    def value(k, l, m, i):
        # a pattern in time of free size for each coefficient
        if (k, l, m) not in sc:
            sc[k, l, m] = c.real(f'{k}{l},{m}', 0.5, 2)
        return sc[k, l, m]*(pat['clm,slm,eclm,eslm'.split(',').index(k), l, m, i]*1e-9)
    C, S, t, kw, gia_str, base, Mx, _, _ = anomalies(c, gs, gs, L, M, value=value)
    names, CM, SM, mass = kernels(c, base, 'netCDF4', 2, L, L, Mx, False)
    order = f'M{M}' if M else ''
    out = base/'out'
    def run(x):
        return P.calc_mascon(str(base), 'CSR', 'RL06', 'GSM', L, 0, START=gs[0], END=gs[-1], MISSING=[], LMIN=1, MMAX=M, REFERENCE='CF', DATAFORM=fmt, MASCON_FILE=str(base/'mascons.txt'), MASCON_FORMAT='netCDF4', FIT_METHOD=1, SOLVER='lstsq', OUTPUT_DIRECTORY=str(x))
    R = run(out)
    delta = base/'CSR'/'RL06'/'GSM'/f'CSR_RL06_GSM_DELTA_CLM_L{L}{order}_{gs[0]:03d}-{gs[-1]:03d}.{EXT[fmt]}'
    c.same(set(str(f) for f in R), {str(delta)} | {str(out/f'{k}_L{L}{order}.txt') for k in names}, 'files')
    K, r = estimator(c, CM, SM, 1, L, Mx, 0, 1)
    D = getattr(c.gt.harmonics(), 'from_' + fmt)(delta)
    ts = c.arr([float(x) for x in t])
    v = {}
    for i, (x, l, m) in enumerate(r):
        q = c.gt.time_series.smooth(ts, (C if x == 'C' else S)[l, m]*1e6, HFWTH=6)
        v[i] = sum(z**2 for z in q['noise'])/len(gs[12:])
        c.close(((D.clm if x == 'C' else D.slm)[l, m]*1e6)**2, v[i], 1e-8, 'noise')
    c.close(c.array(D.time).reshape(-1), [np.mean(t[6:len(gs)-6])], 1e-6, 'middle of the smoothed months')
    c.same(int(c.np.squeeze(D.month)), len(gs) - 12, 'smoothed months')
    T = [c.np.loadtxt(f) for f in R if 'DELTA' not in str(f)]
    for k in range(2):
        e = sum(v[i]*(K[k, i]*float(mass[k])*1e-21)**2 for i in range(len(r)))
        c.close((T[k][0, 3]*1e-6)**2, e*1e-12, 1e-7, 'error in Gt')
    # errors read from the file of the first run
    R2 = run(base/'again')
    c.same(len(R2), 2, 'files of another run')
    for k in range(2):
        T2 = c.np.loadtxt(R2[k])
        c.close((T2[:, 2])*1e-6, (T[k][:, 2])*1e-6, 1e-7, 'mass of another run')
        c.close((T2[0, 3]*1e-6)**2, (T[k][0, 3]*1e-6)**2, 1e-7, 'error of another run')

KN = [dict(L=L, M=M, lmin=mi, n=n, fmt=f, rad=r, method=me, solver=s, oc=o, grid=g, free=fr) for L, M, mi, n, f, r, me, s, o, g, fr in (
    (3, None, 1, 2, 'netCDF4', 0, 1, 'lstsq', False, ([90.0, 60.0], 2, None), True), (3, 2, 1, 3, 'HDF5', 400, 1, 'gelsd', False, ([120.0, 90.0], 1, None), True), (3, None, 2, 2, 'netCDF4', 300, 2, 'gelss', False, ([20.0], 3, [-60.0, 0.0, 30.0, 70.0]), True),
    (1, None, 1, 3, 'netCDF4', 0, 2, 'inv', False, None, True), (2, None, 1, 2, 'ascii', 0, 1, 'gelsy', False, ([90.0, 90.0], 1, None), True), (3, None, 0, 2, 'netCDF4', 0, 1, 'lstsq', True, ([90.0, 60.0], 2, None), False))]

@harness('C37', configs=KN, thorough=[dict(KN[0], L=8), dict(KN[1], L=6, M=4), dict(KN[2], L=8)], mix=10, ok=lambda L, M, lmin, n, fmt, grid, solver, oc, free, **k: M != L and not (free and fmt == 'ascii') and not (free and (oc or lmin == 0)) and (solver != 'inv' or (L == 1 and lmin == 1 and n == 3)) and not (L == 1 and lmin == 2) and (fmt != 'ascii' or grid is None or len(grid[0]) == 2))
def sensitivity(c, L, M, lmin, n, fmt, rad, method, solver, oc, grid, free):
    """kernels of the estimates, as coefficients and maps; they give the masses of the series"""
    P = c.script('calc_sensitivity_kernel')
    base = pathlib.Path(c.tmpdir())
    Mx = M or L
    kw, oC, oS = {}, None, None
    if oc:
        kw['LANDMASK'], oC, oS = ocean(c, base, L, Mx)
        kw['REDISTRIBUTE_MASCONS'] = True
    names, CM, SM, mass = kernels(c, base, fmt, n, L+1, L, Mx, free, oC, oS)
    ddeg, interval, bounds = grid or (None, None, None)
    R = P.calc_sensitivity_kernel(L, rad, LMIN=lmin, MMAX=M, REFERENCE='CF', DATAFORM=fmt, MASCON_FILE=str(base/'mascons.txt'), FIT_METHOD=method, SOLVER=solver, SPATIAL=grid is not None, DDEG=ddeg, INTERVAL=interval, BOUNDS=bounds, OUTPUT_DIRECTORY=str(base/'out'), **kw)
    tag = f'{"_OCN" if oc else ""}_L{L}{f"M{M}" if M else ""}{f"_r{rad}km" if rad else ""}.{EXT[fmt]}'
    c.same([str(f) for f in R], [str(base/'out'/f'{k}_SKERNEL_CLM{tag}') for k in names] + ([str(base/'out'/f'{k}_SKERNEL{tag}') for k in names] if grid else []), 'files')
    K, r = estimator(c, CM, SM, lmin, L, Mx, rad, method)
    k1 = love(c, L)[1]
    for q in range(n):
        C, S = c.zeros((L+1, Mx+1)), c.zeros((L+1, Mx+1))
        for i, (x, l, m) in enumerate(r):
            f = 3/(4*np.pi*RHO*RAD**3)*(1 + k1[l])/(2*l+1) if method == 1 else 1.0
            (C if x == 'C' else S)[l, m] = K[q, i]*f*mass[q]
        s = float(np.abs([K[q, i]*(3/(4*np.pi*RHO*RAD**3)/3 if method == 1 else 1.0) for i in range(len(r))]).max()*4*np.pi*RAD**3*RHO/3*1e-10)
        Y = getattr(c.gt.harmonics(), 'from_' + fmt)(R[q], date=False)
        c.close(Y.clm/s, C/s, 1e-8, 'cosine')
        c.close(Y.slm/s, S/s, 1e-8, 'sine')
        if grid:
            lon, lat = nodes(ddeg, interval, bounds)
            lon = lon - 180.0 if interval < 3 else lon
            if fmt == 'ascii':
                Z = c.gt.spatial().from_ascii(R[n+q], date=False, spacing=ddeg, extent=[lon[0], lon[-1], lat[-1], lat[0]])
                tol = 6e-5/s + 1e-9
            else:
                Z = getattr(c.gt.spatial(), 'from_' + fmt)(R[n+q], date=False)
                tol = 1e-7
            c.close(Z.lon, lon, 1e-4, 'longitudes')
            c.close(Z.lat, lat, 1e-4, 'latitudes')
            c.close(Z.data/s, field(c, C, S, list(lon), plm_table(L, Mx, list(lat)), lmin, L, Mx).T/s, tol, 'map')

RC = [dict(dset=d, L=L, M=M, rad=r, destripe=de, atm=a, gia=gi, fmt=f, oc=o, gs=g) for d, L, M, r, de, a, gi, f, o, g in (
    ('GSM', 3, None, 0, False, False, None, 'netCDF4', False, [4, 5, 8]), ('GAD', 3, 2, 300, True, True, None, 'HDF5', True, [10, 11]), ('GSM', 2, None, 250, False, False, 'AW13-ICE6G', 'netCDF4', False, [13]))]

@harness('C37', configs=RC, mix=8, ok=lambda L, M, destripe, **k: M != L and not destripe)
def reconstruct(c, dset, L, M, rad, destripe, atm, gia, fmt, oc, gs):
    """coefficients of the mass of each mascon"""
    P = c.script('mascon_reconstruct')
    base = pathlib.Path(c.tmpdir())
    Mx = M or L
    kw, oC, oS, g_str = {}, None, None, ''
    if oc:
        kw['LANDMASK'], oC, oS = ocean(c, base, L, Mx)
        kw['REDISTRIBUTE_MASCONS'] = True
    if gia:
        f, ti = gia_write(c, gia, L, coefs(c, L, 1e-3, 5.0))
        kw.update(GIA=gia, GIA_FILE=f)
        g_str = '_' + ti.upper()
    names, CM, SM, mass = kernels(c, base, fmt, 2, L+1, L, Mx, False, oC, oS)
    out = base/'out'
    out.mkdir()
    X, T = {}, {}
    stem = f'{"" if dset == "GSM" else "_" + dset}{g_str}{"_wATM" if atm else ""}{"_OCN" if oc else ""}_L{L}{f"M{M}" if M else ""}{f"_r{rad}km" if rad else ""}{"_FL" if destripe else ""}'
    for q, k in enumerate(names):
        with (out/f'{k}{stem}.txt').open('w') as o:
            for j, g in enumerate(gs):
                X[q, j] = c.real(f'x{q},{j}', 0.5, 50)*(-1 if (q + j) % 2 else 1)
                T[j] = round(month(g), 4)
                o.write(f'{g:03d} {T[j]:12.4f} {X[q, j]:16.10f} {0.25:16.10f} {float(mass[q])/1e10:16.5f}\n')
    P.mascon_reconstruct(dset, L, rad, START=gs[0], END=gs[-1], MMAX=M, DESTRIPE=destripe, REFERENCE='CF', ATM=atm, DATAFORM=fmt, MASCON_FILE=str(base/'mascons.txt'), RECONSTRUCT_FILE=str(base/'list.txt'), OUTPUT_DIRECTORY=str(out), **kw)
    files = [out/f'{k}{stem}_{gs[0]:03d}-{gs[-1]:03d}.{EXT[fmt]}' for k in names]
    c.same([str(pathlib.Path(f).expanduser()) for f in (base/'list.txt').read_text().split('\n') if f], [str(f) for f in files], 'list of files')
    for q in range(2):
        Y = getattr(c.gt.harmonics(), 'from_' + fmt)(files[q])
        Y.expand_dims()
        c.same([int(x) for x in Y.month], list(gs), 'months')
        c.close(Y.time, [T[j] for j in range(len(gs))], 1e-6, 'time')
        for j in range(len(gs)):
            s = X[q, j]*float(1e15/mass[q])
            c.close(Y.clm[:, :, j]*1e8, CM[q]*s*1e8, 1e-7, 'cosine')
            c.close(Y.slm[:, :, j]*1e8, SM[q]*s*1e8, 1e-7, 'sine')

doc('C37', 'every coefficient of up to 3 months (14 for the noise, where each coefficient is a pattern of free size) and the total mass of each of up to 3 mascons, to degree 3 (decorrelation to 10; patterns of 30 months to degree 24), listed fits, solvers and options', ['the shape of the mascons is concrete (the matrices of the fits are)'])
