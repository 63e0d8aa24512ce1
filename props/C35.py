"""C35 programs computing mean fields and monthly maps"""
import pathlib
import numpy as np
from symx.harness import harness, doc
from props.hutil import *
from props.oracles import *
from props.C11 import quadrature
from props.C22 import path
from props.C23 import write_mask, BASE
from props.C31 import coefs, SCALE, write as gia_write
from props.C33 import product, slr_file
from props.C34 import factor, love, nodes, EXT, RAD, RHO, write

EARTH = lambda L, M: (L+1, M+1)

def month(g):
    return 2002.0 + (g - 0.5)/12.0

@harness('C35', configs=[dict(fmt=f, proc=p, rel=r, gs=g, use=u, LF=lf, L=L, M=M, named=n, c20=s) for f, p, r, g, u, lf, L, M, n, s in (
    ('ascii', 'CSR', 'RL06', [4, 5, 8], [4, 5, 8], 3, 3, None, False, False), ('netCDF4', 'GFZ', 'RL06', [10, 11], [10, 11], 4, 3, 2, False, False), ('HDF5', 'JPL', 'RL06', [198, 199, 202], [198, 202], 3, 3, None, True, True),
    ('gfc', 'CSR', 'RL06', [4, 5, 8, 9], [4, 8, 9], 3, 3, None, False, False), ('gfc', 'CSR', 'RL05', [6], [6], 3, 4, 1, True, False))], mix=16, ok=lambda gs, use, proc, rel, **k: set(use) <= set(gs) and (rel == 'RL06' or proc == 'CSR'))
def means(c, fmt, proc, rel, gs, use, LF, L, M, named, c20):
    P = c.script('grace_mean_harmonics')
    v, t, names = product(c, proc, rel, 'GSM', gs, LF)
    base = pathlib.Path(c.tmpdir())
    kw = dict(MEAN_FILE=base/'sub'/'mean.dat') if named else {}
    if c20:
        w, f = slr_file(c, '20', 'GSFC', rel, gs, t, 'r')
        kw['SLR_C20'] = 'GSFC'
        for i in range(len(gs)):
            v['clm', 2, 0, i], v['eclm', 2, 0, i] = w['data'][i], w['error'][i]
    R = P.grace_mean_harmonics(str(base), proc, rel, 'GSM', L, START=use[0], END=use[-1], MISSING=[g for g in range(use[0], use[-1]) if g not in use], MMAX=M, MEANFORM=fmt, **kw)
    ext = dict(EXT, gfc='gfc')[fmt]
    Mx = L if M is None else M
    order = f'M{M}' if M else ''
    title = '_wGSFC_C20' if c20 else ''
    c.same(str(R), str(kw['MEAN_FILE'] if named else base/proc/rel/'GSM'/f'{proc}_{rel}_GSM_MEAN_CLM{title}_L{L}{order}_{use[0]:03d}-{use[-1]:03d}.{ext}'), 'name of the file')
    e = {k: c.zeros((L+1, Mx+1)) for k in ('clm', 'slm', 'eclm', 'eslm')}
    n = len(use)
    for g in use:
        i = gs.index(g)
        for k in e:
            for l in range(min(L, LF)+1):
                for m in range(min(l, Mx)+1):
                    x = v[k, l, m, i]*1e6
                    e[k][l, m] = e[k][l, m] + (x/n if k[0] != 'e' else x**2/n)
    if fmt == 'gfc':
        lines = pathlib.Path(R).read_text().split('\n')
        skip = [i for i, s in enumerate(lines) if s.startswith('end_of_head')][0] + 1
        T = c.np.loadtxt(R, skiprows=skip, usecols=(1, 2, 3, 4, 5, 6))
        pairs = [(l, m) for m in range(Mx+1) for l in range(m, L+1)]
        c.same(len(T), len(pairs), 'number of coefficients')
        for r, (l, m) in zip(T, pairs):
            c.same((int(r[0]), int(r[1])), (l, m), 'degree and order')
            c.close(r[2]*1e6, e['clm'][l, m], 1e-9, 'cosine')
            c.close(r[3]*1e6, e['slm'][l, m], 1e-9, 'sine')
            c.close((r[4]*1e6)**2, e['eclm'][l, m], 1e-4, 'error of the cosine')
            c.close((r[5]*1e6)**2, e['eslm'][l, m], 1e-4, 'error of the sine')
        head = '\n'.join(lines[:skip])
        c.same((f'{"max_degree":30}{L}' in head, f'{"product_release":30}{rel}' in head), (True, True), 'header')
    else:
        Y = getattr(c.gt.harmonics(), 'from_' + fmt)(R)
        c.close(Y.clm*1e6, e['clm'], 1e-9, 'cosine')
        c.close(Y.slm*1e6, e['slm'], 1e-9, 'sine')
        c.close(c.array(Y.time).reshape(-1), [sum(t[gs.index(g)] for g in use)/n], 1e-4, 'time')
        c.same((int(Y.lmax), int(Y.mmax)), (L, Mx), 'degree and order')

MP = [dict(fmt=f, gs=g, use=u, L=L, M=M, lmin=mi, units=un, rad=r, ddeg=s, interval=i, bounds=b, mean=me, gia=gi, remove=rm, ocean=oc, destripe=de, prefix=pr) for f, g, u, L, M, mi, un, r, s, i, b, me, gi, rm, oc, de, pr in (
    ('netCDF4', [4, 5, 8], [4, 5, 8], 3, None, 1, 1, 0, [90.0, 60.0], 2, None, None, None, None, False, False, None),
    ('HDF5', [4, 5, 8, 9], [4, 8, 9], 3, 2, 2, 2, 400, [120.0, 90.0], 1, None, 'netCDF4', 'AW13-ICE6G', None, False, False, 'mine_'),
    ('netCDF4', [10, 11], [10, 11], 3, None, 0, 3, 250, [20.0], 3, [-60.0, 0.0, 30.0, 70.0], 'ascii', None, ['netCDF4'], True, False, None),
    ('netCDF4', [10, 11, 12], [10, 11, 12], 3, None, 1, 5, 0, [90.0, 60.0], 2, None, None, 'IJ05-R2', ['index-netCDF4', 'HDF5'], False, False, None),
    ('ascii', [13, 14], [13, 14], 2, None, 1, 1, 300, [90.0, 90.0], 1, None, None, None, None, False, False, None),
    ('netCDF4', [13, 14], [13, 14], 10, None, 1, 4, 300, [120.0, 90.0], 2, None, None, None, ['netCDF4'], False, True, None),
    ('HDF5', [20], [20], 3, 1, 1, 1, 0, [90.0, 90.0], 2, None, 'HDF5', 'Caron', ['netCDF4', 'netCDF4'], True, False, None),
    ('netCDF4', [21], [21], 1, None, 0, 1, 0, [0.75, 90.0], 2, None, None, None, None, False, False, None),
    ('HDF5', [22], [22], 1, None, 1, 2, 0, [180.0, 0.6], 2, None, None, None, None, False, False, None),
    ('netCDF4', LONG, LONG, 20, None, 1, 1, 300, [60.0, 45.0], 2, None, None, None, None, False, False, None), ('HDF5', LONG, LONG, 36, 30, 1, 2, 0, [72.0, 60.0], 1, None, 'netCDF4', None, None, False, False, None),
    ('netCDF4', [23], [23], 1, None, 1, 1, 0, [0.8, 90.0], 1, None, None, None, None, False, False, None))]

def anomalies(c, gs, use, L, M, mean=None, gia=None, remove=None, ocean=False, destripe=False, value=None, size=1e-9, deg=3):
    """coefficients of the months after removing mean, drift and other fields, with the options asking for it"""
    Lf = min(L, deg)
    v, t, names = product(c, 'CSR', 'RL06', 'GSM', gs, Lf, value)
    base = pathlib.Path(c.tmpdir())
    Mx = L if M is None else M
    n = len(use)
    kw = {}
    C, S = c.zeros((L+1, Mx+1, n)), c.zeros((L+1, Mx+1, n))
    for j, g in enumerate(use):
        for l in range(Lf+1):
            for m in range(min(l, Mx)+1):
                C[l, m, j], S[l, m, j] = v['clm', l, m, gs.index(g)], v['slm', l, m, gs.index(g)]
    if mean:
        Z = harm(c, 'm', 2, lo=0.01, date=False)
        Z.clm, Z.slm = Z.clm*size, Z.slm*size
        kw.update(MEAN_FILE=str(write(c, Z, mean, base/f'mean.{EXT[mean]}', False)), MEANFORM=mean)
        for l in range(3):
            for m in range(min(l, Mx)+1):
                for j in range(n):
                    C[l, m, j] = C[l, m, j] - Z.clm[l, m]
                    S[l, m, j] = S[l, m, j] - Z.slm[l, m]
    else:
        for X in (C, S):
            for i in np.ndindex(L+1, Mx+1):
                a = sum(X[i + (j,)] for j in range(n))/n
                for j in range(n):
                    X[i + (j,)] = X[i + (j,)] - a
    def filt(X, Y):
        if destripe:
            for j in range(n):
                W = c.gt.destripe_harmonics(X[:, :, j].copy(), Y[:, :, j].copy(), LMAX=L, MMAX=Mx)
                X[:, :, j], Y[:, :, j] = W['clm'], W['slm']
    filt(C, S)
    gia_str, oC, oS = '', None, None
    if gia:
        small = gia not in SCALE
        q = coefs(c, L, 1e-14 if small else 1e-3, 1e-10 if small else 5.0)
        f, ti = gia_write(c, gia, L, q)
        kw.update(GIA=gia, GIA_FILE=f)
        gia_str = '_' + ti
        for (k, l, m), x in q.items():
            if m <= Mx:
                for j, g in enumerate(use):
                    X = C if k == 'clm' else S
                    X[l, m, j] = X[l, m, j] - x*SCALE.get(gia, 1.0)*(t[gs.index(g)] - 2003.3)
    if ocean:
        D = np.array(BASE)[:4]
        mlon, mlat = 30.0 + 60.0*np.arange(6), 67.5 - 45.0*np.arange(4)
        kw.update(REDISTRIBUTE_REMOVED=True, LANDMASK=write_mask(c, D, mlon, mlat, 'LSMASK'))
        h, k, l = love(c, L)
        fac = [3*(1 + k[i])/(2*i+1)/(4*np.pi*RAD*RHO)*1e9 for i in range(L+1)]
        oC, oS = quadrature(c, (1.0*((D < 1) | (D > 3))).T, list(mlon), list(mlat), np.cos(np.radians(mlat))*np.radians(60.0)*np.radians(45.0), L, Mx, 0, fac)
    if remove:
        files = []
        for r, form in enumerate(remove):
            kind = form.split('-')[-1]
            mo = [g for g in range(use[0]-1, use[-1]+2)]
            Y = c.gt.harmonics(lmax=L+1, mmax=L+1)
            Y.clm, Y.slm = c.zeros((L+2, L+2, len(mo))), c.zeros((L+2, L+2, len(mo)))
            Y.month, Y.time = c.arr(np.array(mo)), c.arr([month(g) for g in mo])
            for l in range(Lf+1):
                for m in range(l+1):
                    for j in range(len(mo)):
                        Y.clm[l, m, j] = c.real(f'r{r}C{l},{m},{j}', 0.1, 10)*size
                        Y.slm[l, m, j] = c.real(f'r{r}S{l},{m},{j}', 0.1, 10)*size if m else 0.0
            X1, X2 = c.zeros((L+1, Mx+1, n)), c.zeros((L+1, Mx+1, n))
            for j, g in enumerate(use):
                X1[:, :, j], X2[:, :, j] = Y.clm[:L+1, :Mx+1, mo.index(g)], Y.slm[:L+1, :Mx+1, mo.index(g)]
                if ocean:
                    a = X1[0, 0, j]/oC[0, 0]
                    X1[:, :, j], X2[:, :, j] = X1[:, :, j] - a*oC, X2[:, :, j] - a*oS
            filt(X1, X2)
            C, S = C - X1, S - X2
            if form.startswith('index'):
                f = base/f'index{r}.txt'
                Y.to_index(f, [base/f'r{r}_{i}.{EXT[kind]}' for i in range(len(mo))], format=kind)
            else:
                f = write(c, Y, kind, base/f'r{r}.{EXT[kind]}', True)
            files.append(f)
        forms = remove if len(set(remove)) > 1 else remove[:1]
        kw.update(REMOVE_FILES=files, REMOVE_FORMAT=forms)
    return C, S, t, kw, gia_str, base, Mx, oC, oS

@harness('C35', configs=MP, mix=16, ok=lambda fmt, gs, use, interval, bounds, ddeg, L, M, mean, destripe, remove, ocean, gia, **k: set(use) <= set(gs) and fits(ddeg, interval, bounds) and (fmt != 'ascii' or len(ddeg) == 2) and (L == 10) == destripe and (L > 1 or mean is None) and M != L and (L < 12) == (len(gs) < 10) and (L < 12 or not (remove or ocean or gia)))
def maps(c, fmt, gs, use, L, M, lmin, units, rad, ddeg, interval, bounds, mean, gia, remove, ocean, destripe, prefix):
    P = c.script('grace_spatial_maps')
    C, S, t, kw, gia_str, base, Mx, _, _ = anomalies(c, gs, use, L, M, mean, gia, remove, ocean, destripe, many(c) if L > 10 else None, deg=L if L > 10 else 3)
    out = base/'maps'
    R = P.grace_spatial_maps(str(base), 'CSR', 'RL06', 'GSM', L, rad, START=use[0], END=use[-1], MISSING=[g for g in range(use[0], use[-1]) if g not in use], LMIN=lmin, MMAX=M, REFERENCE='CF', DESTRIPE=destripe, UNITS=units, DDEG=ddeg, INTERVAL=interval, BOUNDS=bounds, DATAFORM=fmt, OUTPUT_DIRECTORY=out, FILE_PREFIX=prefix, **kw)
    name = ['norm', 'cmwe', 'mmGH', 'mmCU', 'microGal', 'mbar'][units]
    pre = prefix or f'CSR_RL06_GSM{gia_str}_'
    c.same([str(f) for f in R], [str(out/f'{pre}{name}_L{L}{f"M{M}" if M else ""}{f"_r{rad}km" if rad else ""}{"_FL" if destripe else ""}_{g:03d}.{EXT[fmt]}') for g in use], 'files')
    lon, lat = nodes(ddeg, interval, bounds)
    lon = lon - 180.0 if interval < 3 else lon
    w = 2*np.pi*gauss_quadrature(rad, L)*factor(c, units, L)
    sc = float(np.abs(w).max())*1e-8
    tol = 1e-6
    PL = plm_table(L, Mx, list(lat)) if L < 12 else legendre_table(L, Mx, list(lat))
    for j, g in enumerate(use):
        if fmt == 'ascii':
            Z = c.gt.spatial().from_ascii(R[j], spacing=ddeg, extent=[lon[0], lon[-1], lat[-1], lat[0]])
            tol = 6e-5/sc
        else:
            Z = getattr(c.gt.spatial(), 'from_' + fmt)(R[j])
        c.close(Z.lon, lon, 1e-4, 'longitudes')
        c.close(Z.lat, lat, 1e-4, 'latitudes')
        c.close(Z.data/sc, field(c, C[:, :, j], S[:, :, j], list(lon), PL, lmin, L, Mx, weight=w).T/sc, tol, 'map')
        c.close(c.array(Z.time).reshape(-1), [t[gs.index(g)]], 2e-4, 'time')
        c.same(int(Z.month), g, 'month')
        if fmt == 'netCDF4':
            c.same((str(Z.attributes['ROOT']['generating_institute']), int(Z.attributes['ROOT']['max_degree'])), ('CSR', L), 'attributes')

doc('C35', 'every coefficient, mean, corrected rate and removed field of up to 5 months to degree 3 (decorrelation to 10); patterns of 30 months to degree 36, listed grids, units, masks and formats', ['netCDF4 and HDF5 files are an in-memory stand-in in the encoding; every model is replayed through the real libraries'])
