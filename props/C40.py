"""C40 degree one coefficients from the other degrees and ocean models"""
import pathlib
import types
import numpy as np
from symx.harness import harness, doc
from props.hutil import *
from props.oracles import *
from props.C11 import quadrature
from props.C21 import DEG, R0
from props.C22 import path
from props.C23 import write_mask, BASE
from props.C31 import SCALE, write as gia_file
from props.C33 import product, atm_files, era
from props.C34 import factor, love, EXT, RAD, RHO
from props.C35 import anomalies, month
from props.C38 import noise_file

IDX = (('clm', 1, 0), ('clm', 1, 1), ('slm', 1, 1))
# annual and semi-annual amplitudes (mm) and phases (degrees) of the land water in Chen et al. (1999), Z X Y
LAND = ((3.30, 43.0, 0.50, 75.0), (1.28, 44.0, 0.15, 331.0), (0.52, 182.0, 0.56, 312.0))

def seasonal(t):
    out = []
    for a, p, b, q in LAND:
        x = np.array([a*np.sin(2*np.pi*s + np.radians(p)) + b*np.sin(4*np.pi*s + np.radians(q)) for s in t])
        out.append((x - x.mean())/R0/np.sqrt(3.0))
    return np.array(out)

class Basis:
    """quadrature over the cells of the mask"""
    def __init__(s, D, lon, lat, L, M):
        s.lon, s.lat = np.radians(lon), np.radians(lat)
        s.P = plm_table(L, M, list(lat))
        s.land = (1.0*((D >= 1) & (D <= 3))).T
        s.w = np.cos(s.lat)*np.radians(lon[1] - lon[0])*np.radians(abs(lat[1] - lat[0]))/(4*np.pi)
        s.ocean = 1.0 - s.land
        s.one = [s.func(*i) for i in IDX]
    def func(s, k, l, m):
        return np.outer((np.cos if k == 'clm' else np.sin)(m*s.lon), s.P[l, m])
    def mean(s, x):
        return float((x*s.w).sum())

def solve(c, B, C, S, f, deg1, n, L, M, extra=None, loading=None):
    """coefficients of mass of degree one for each of the months"""
    I = np.array([[B.mean(p*q*B.ocean) for q in B.one] for p in B.one])
    inv = np.linalg.inv(I)
    out, eus, own = c.zeros((3, n)), c.zeros((3, n)), c.zeros((3, n))
    uniform = np.array([B.mean(B.ocean*p) for p in B.one])/B.mean(B.ocean)
    for j in range(n):
        land, G, cells = 0.0, [0.0]*3, c.zeros(B.land.shape)
        for l in range(1, L+1):
            for m in range(min(l, M)+1):
                for k, X in (('clm', C), ('slm', S)):
                    if m == 0 and k == 'slm':
                        continue
                    q = B.func(k, l, m)
                    x = deg1[IDX.index((k, 1, m)), j] if l == 1 else X[l, m, j]
                    land = land + f[l]*B.mean(B.land*q)*x
                    if loading:
                        cells = cells + f[l]*(B.land*q)*x
                    for i in range(3 if l > 1 else 0):
                        G[i] = G[i] + f[l]*B.mean(B.ocean*q*B.one[i])*x
        e = loading(cells) if loading else [-land*x for x in uniform]
        rhs = [e[i] - G[i] + (extra[i, j] if extra is not None else 0.0) for i in range(3)]
        for i in range(3):
            eus[i, j], own[i, j] = e[i], G[i]
            out[i, j] = sum(inv[i, k]*rhs[k] for k in range(3))
    return out, eus, own

def centred(c, X):
    out = X.copy()
    for i in range(X.shape[0]):
        a = sum(X[i, j] for j in range(X.shape[1]))/X.shape[1]
        for j in range(X.shape[1]):
            out[i, j] = X[i, j] - a
    return out

CFG = [dict(gs=g, use=u, L=L, M=M, rad=r, lv=lv, k1=k1, model=mo, fmt=fm, mean=me, gia=gi, destripe=de, atm=at, solver=s, exp=e, copy=cp) for g, u, L, M, r, lv, k1, mo, fm, me, gi, de, at, s, e, cp in (
    ([4, 5, 8], [4, 5, 8], 2, None, 0, 0, None, 'MPIOM', None, None, None, False, False, 'inv', 4, False),
    ([10, 11, 12], [10, 12], 3, 2, 400, 1, 0.021, 'OMCT', None, 'netCDF4', 'AW13-ICE6G', False, False, 'lstsq', 5, True),
    ([20, 21], [20, 21], 3, None, 0, 2, 0.03, 'ECCO_kf080i', 'netCDF4', None, None, False, False, 'gelsy', 3, False),
    ([13, 14, 15], [13, 14, 15], 2, None, 300, 3, None, 'ECCO_V4r4', 'ascii', 'HDF5', 'IJ05-R2', False, False, 'gelsd', 3, False),
    ([97, 98], [97, 98], 2, None, 0, 0, 0.021, 'MPIOM', None, None, None, False, True, 'gelss', 2, True),
    ([30, 31], [30, 31], 10, None, 0, 0, 0.021, 'OMCT', None, None, None, True, False, 'lstsq', 10, False),
    ([97, 98], [97, 98], 3, 2, 300, 1, 0.021, 'OMCT', None, 'netCDF4', 'AW13-ICE6G', False, True, 'lstsq', 3, True))]

SPAN = list(range(178, 187)) + list(range(198, 203))
CFG.append(dict(gs=SPAN, use=SPAN, L=16, M=None, rad=0, lv=0, k1=0.021, model='MPIOM', fmt=None, mean=None, gia=None, destripe=False, atm=False, solver='inv', exp=20, copy=False))

@harness('C40', configs=CFG, mix=6, ok=lambda gs, use, L, exp, destripe, fmt, model, **k: set(use) <= set(gs) and (L == 10) == destripe and exp >= L and (fmt is not None) == model.startswith('ECCO') and L < 12 and len(gs) < 10)
def geocenter(c, gs, use, L, M, rad, lv, k1, model, fmt, mean, gia, destripe, atm, solver, exp, copy):
    P = c.script('calc_degree_one')
    value = lambda k, l, m, i: 1e-12*(l + m) if k[0] == 'e' else c.real(f'{k}{l},{m},{i}', 0.01, 10)*(1e-9*(-1)**(l + m//2 + i + len(k)))
    if L > 10:
        value = many(c, 1e-11)
    C, S, t, kw, gia_str, base, Mx, _, _ = anomalies(c, gs, use, L, M, mean, gia, None, False, destripe, value, deg=L if L > 10 else 3)
    n = len(use)
    t = [t[gs.index(g)] for g in use]
    drift = c.zeros((3, n))
    if gia:
        drift = degree_one(c, kw['GIA_FILE'], gia, L, t)
    # dealiasing fields
    obs = {}
    for q in ('GAC', 'GAD'):
        v = product(c, 'CSR', 'RL06', q, gs, 2, lambda k, l, m, i: c.real(f'{q}{k}{m},{i}', 1e-11, 1e-9)*(-1)**(i + m) if l == 1 and k[0] != 'e' else 1e-12*(l + m + i))[0]
        obs[q] = c.zeros((3, n))
        for i, (k, l, m) in enumerate(IDX):
            for j, g in enumerate(use):
                obs[q][i, j] = v[k, l, m, gs.index(g)]
        obs[q] = centred(c, obs[q])
    jump = c.zeros((3, n))
    if atm:
        w = atm_files(c, L)
        A = {k: c.zeros((L+1, Mx+1, n)) for k in ('clm', 'slm')}
        for (q, k, l, m), x in w.items():
            for j, g in enumerate(use):
                if era(g) == q and m <= Mx:
                    A[k][l, m, j] = x
        for k, X in (('clm', C), ('slm', S)):
            A[k] = centred(c, A[k].reshape(-1, n)).reshape(L+1, Mx+1, n)
        C, S = C - A['clm'], S - A['slm']
        for i, (k, l, m) in enumerate(IDX):
            jump[i] = A[k][l, m]
    h, k, l = love(c, exp, lv)
    if k1:
        k[1] = k1
    d = RHO*RAD*(2*np.arange(L+1)+1)/(1 + k[:L+1])/3
    f = d*2*np.pi*gauss_quadrature(rad, L)
    extra = None
    if model not in ('OMCT', 'MPIOM'):
        mo = list(range(use[0]-1, use[-1]+2))
        Y = c.gt.harmonics(lmax=L+1, mmax=L+1)
        Y.clm, Y.slm = c.zeros((L+2, L+2, len(mo))), c.zeros((L+2, L+2, len(mo)))
        Y.month, Y.time = c.arr(np.array(mo)), c.arr([month(g) for g in mo])
        obp = c.zeros((3, n))
        for i, (q, a, b) in enumerate(IDX):
            for j, g in enumerate(mo):
                X = Y.clm if q == 'clm' else Y.slm
                X[a, b, j] = c.real(f'obp{i},{j}', 0.1, 10)*1e-9
                if g in use:
                    obp[i, use.index(g)] = X[a, b, j]
        ix = base/'obp.txt'
        Y.to_index(ix, [base/f'obp{i}.{EXT[fmt]}' for i in range(len(mo))], format=fmt)
        kw.update(MODEL_INDEX=ix, DATAFORM=fmt)
        # the dealiasing products have no loading of the solid Earth
        extra = centred(c, obp)*float(d[1]) - obs['GAD']*float(RHO*RAD)
    D = np.array(BASE)[:4]
    lon, lat = 30.0 + 60.0*np.arange(6), 67.5 - 45.0*np.arange(4)
    mask = write_mask(c, D, lon, lat, 'LSMASK')
    if kw.get('MEAN_FILE'):
        kw['MEAN_FILE'] = pathlib.Path(kw['MEAN_FILE'])
    R, it = P.calc_degree_one(str(base), 'CSR', 'RL06', model, L, rad, START=use[0], END=use[-1], MISSING=[g for g in range(use[0], use[-1]) if g not in use], MMAX=M, DESTRIPE=destripe, LOVE_NUMBERS=lv, LOVE_K1=k1, ATM=atm, SOLVER=solver, EXPANSION=exp, LANDMASK=mask, COPY=copy, **kw)
    B = Basis(D, lon, lat, L, Mx)
    X, eus, own = solve(c, B, C, S, f, seasonal(t) - drift - jump, n, L, Mx, extra)
    X = centred(c, X*(1/float(d[1])) + drift + jump)
    ds = '_FL' if destripe else ''
    name = f'CSR_RL06_{model}{gia_str}'
    c.same([str(R[0]), str(R[-1]), it], [str(base/'geocenter'/f'{name}{ds}.txt'), str(base/'geocenter'/f'{name}{ds}.nc'), 1], 'files')
    c.same(len(R), 7 if copy else 3, 'number of files')
    files = [(R[0], X, 'coefficients'), (R[3] if copy else R[1], X + obs['GAC'], 'with dealiasing')]
    if copy:
        files += [(R[1], X, 'link'), (R[2], X, 'copy')]
        c.same([str(x) for x in R[1:5:3]], [str(base/'geocenter'/f'CSR_RL06_{model}{x}.txt') for x in ('', '_wAOD')], 'links')
    c.same(str(files[1][0]), str(base/'geocenter'/f'{name}_wAOD{ds}.txt'), 'files')
    for fn, e, label in files:
        g = c.gt.geocenter().from_UCI(fn)
        for i, q in enumerate(DEG):
            c.close(g[q]*1e9, e[i]*1e9, 2e-3 if atm else 1e-4, label)
        c.close(g.time, c.arr(t), 1e-4, 'time')
        c.same([int(x) for x in g.month], list(use), 'month')
    nc = c.mod('spatial').netCDF4.Dataset(R[-1], 'r')
    for i, q in enumerate(DEG):
        c.close(c.array(nc.variables[q][:])*1e9, (X[i]*1e9).reshape(n, 1), 1e-7, 'coefficients')
        c.close(c.array(nc.groups['AOD'].variables[q][:])*1e9, obs['GAC'][i]*1e9, 1e-7, 'dealiasing')
        for grp, e in (('ESL', eus), ('OWM', own), ('OBP', centred(c, obp)*float(d[1]) if extra is not None else obs['GAD']*float(RHO*RAD))):
            c.close(c.array(nc.groups[grp].variables[q][:])*1e9, e[i]*(1e9/float(d[1])), 1e-6, grp)
    c.close(c.array(nc.variables['time'][:]), c.arr(t), 1e-9, 'time')
    c.same([int(x) for x in nc.variables['month'][:]], list(use), 'month')
    nc.close()

@harness('C40', configs=[dict(gs=g, L=l, pattern=p, gia=gi, solver=v, span=s) for g, l, p, gi, v, s in (([4, 5, 6], 2, 0, None, 'inv', (1.0, 2.0)), ([40, 41], 3, 1, 'AW13-ICE6G', 'lstsq', (0.5, 2.0)))])
def iterated(c, gs, L, pattern, gia, solver, span):
    P = c.script('calc_degree_one')
    size = c.real('size', *span)
    value = lambda k, l, m, i: 1e-12 if k[0] == 'e' else size*(1e-9*((7*l + 3*m + 5*i + len(k) + pattern) % 11 - 5))
    C, S, t, kw, gia_str, base, Mx, _, _ = anomalies(c, gs, gs, L, None, None, None, None, False, False, value)
    n = len(gs)
    t = list(t)
    drift = c.zeros((3, n))
    if gia:
        kw['GIA'], (kw['GIA_FILE'], ti) = gia, gia_file(c, gia, L, {(k, l, m): 0.0 if k == 'slm' and m == 0 else 1e-11*((l + 2*m + len(k)) % 5 - 2.5) for k in ('clm', 'slm') for l in range(L+1) for m in range(l+1)})
        gia_str = '_' + ti
        G = c.gt.gia(lmax=L).from_GIA(kw['GIA_FILE'], GIA=gia)
        for j in range(n):
            C[:, :, j], S[:, :, j] = C[:, :, j] - G.clm*(t[j] - 2003.3), S[:, :, j] - G.slm*(t[j] - 2003.3)
        drift = degree_one(c, kw['GIA_FILE'], gia, L, t)
    for q in ('GAC', 'GAD'):
        product(c, 'CSR', 'RL06', q, gs, 1, lambda k, l, m, i: 1e-12*(l + m + i))
    h, k, l = love(c, L)
    d = RHO*RAD*(2*np.arange(L+1)+1)/(1 + k)/3
    D = np.array(BASE)[:4]
    lon, lat = 30.0 + 60.0*np.arange(6), 67.5 - 45.0*np.arange(4)
    mask = write_mask(c, D, lon, lat, 'LSMASK')
    R, it = P.calc_degree_one(str(base), 'CSR', 'RL06', 'MPIOM', L, 0, START=gs[0], END=gs[-1], MISSING=[], SOLVER=solver, EXPANSION=L, LANDMASK=mask, ITERATIVE=True, **kw)
    B = Basis(D, lon, lat, L, L)
    deg1, X = seasonal(t), []
    while len(X) < 15:
        Y, eus, own = solve(c, B, C, S, d, deg1 - drift, n, L, L)
        X.append(centred(c, Y*(1/float(d[1])) + drift))
        num, den = sum(((X[-1] - deg1)*1e9).reshape(-1)**2), sum((deg1*1e9).reshape(-1)**2)
        deg1 = X[-1]
        # rounding decides at the limit itself
        c.assume(abs(num - 1e-12*den) > 1e-14*den)
        if not c.pick(num > 1e-12*den):
            break
    c.same((it, str(R[-1])), (len(X), str(base/'geocenter'/f'CSR_RL06_MPIOM_iter{gia_str}.nc')), 'iterations')
    nc = c.mod('spatial').netCDF4.Dataset(R[-1], 'r')
    for i, q in enumerate(DEG):
        for r in range(len(X)):
            c.close(c.array(nc.variables[q][:])[:, r]*1e9, X[r][i]*1e9, 1e-6, 'iteration')
        c.close(c.array(nc.groups['ESL'].variables[q][:])*1e9, eus[i]*(1e9/float(d[1])), 1e-6, 'ESL')
    nc.close()
    g = c.gt.geocenter().from_UCI(R[0])
    for i, q in enumerate(DEG):
        c.close(g[q]*1e9, X[-1][i]*1e9, 1e-4, 'coefficients')

@harness('C40', configs=[dict(gs=[4, 5], L=2, exp=3, lv=0), dict(gs=[60, 61], L=1, exp=2, lv=1)])
def fingerprint(c, gs, L, exp, lv):
    P = c.script('calc_degree_one')
    size = c.real('size', 0.5, 2.0)
    value = lambda k, l, m, i: 1e-12 if k[0] == 'e' else size*(1e-9*((7*l + 3*m + 5*i + len(k)) % 11 - 5))
    C, S, t, kw, gia_str, base, Mx, _, _ = anomalies(c, gs, gs, L, None, None, None, None, False, False, value)
    n = len(gs)
    for q in ('GAC', 'GAD'):
        product(c, 'CSR', 'RL06', q, gs, 1, lambda k, l, m, i: 1e-12*(l + m + i))
    LV = c.gt.load_love_numbers(exp, LOVE_NUMBERS=lv, REFERENCE='CF', FORMAT='class')
    LV.kl[1] = 0.021
    d = RHO*RAD*(2*np.arange(L+1)+1)/(1 + np.array([float(x) for x in LV.kl])[:L+1])/3
    D = np.array(BASE)[:4]
    lon, lat = 30.0 + 60.0*np.arange(6), 67.5 - 45.0*np.arange(4)
    mask = write_mask(c, D, lon, lat, 'LSMASK')
    B = Basis(D, lon, lat, L, L)
    # any response of the ocean to the land load (the response itself is decided in C24)
    calls, fields = [], [c.reals(f'sea{j}', (6, 4), -1, 1) for j in range(n)]
    def response(loadClm, loadSlm, glon, glat, land_function, **kw):
        calls.append((loadClm.copy(), loadSlm.copy(), glon, glat, land_function, kw))
        return fields[len(calls) - 1].copy()
    original = c.gt.sea_level_equation
    c.gt.sea_level_equation = response
    try:
        R, it = P.calc_degree_one(str(base), 'CSR', 'RL06', 'MPIOM', L, 0, START=gs[0], END=gs[-1], MISSING=[], LOVE_NUMBERS=lv, LOVE_K1=0.021, SOLVER='lstsq', EXPANSION=exp, LANDMASK=mask, FINGERPRINT=True, **kw)
    finally:
        c.gt.sea_level_equation = original
    c.same(len(calls), n, 'calls')
    done = []
    def loading(cells):
        j = len(done)
        done.append(j)
        Y = c.gt.gen_stokes(cells, c.arr(lon), c.arr(lat), UNITS=1, LMIN=0, LMAX=exp, LOVE=LV)
        clm, slm, x, y, land, kw = calls[j]
        c.close(clm*1e9, Y.clm*1e9, 1e-6, 'land load')
        c.close(slm*1e9, Y.slm*1e9, 1e-6, 'land load')
        c.close(c.array(land), c.arr(B.land), 0, 'land')
        c.close(c.array(x).reshape(-1), c.arr(lon), 1e-9, 'longitudes')
        c.close(c.array(y).reshape(-1), c.arr(lat), 1e-9, 'latitudes')
        c.same((int(kw['LMAX']), float(kw['LOVE'].kl[1]), kw['BODY_TIDE_LOVE'], kw['FLUID_LOVE'], kw['POLAR'], kw['FILL_VALUE']), (exp, 0.021, 0, 0, True, 0), 'options')
        return [sum((B.w*q)[i]*fields[j][i] for i in np.ndindex(*q.shape)) for q in B.one]
    X, eus, own = solve(c, B, C, S, d, seasonal(t), n, L, L, loading=loading)
    X = centred(c, X*(1/float(d[1])))
    c.same([pathlib.Path(f).name for f in R], [f'CSR_RL06_MPIOM_SLF{x}' for x in ('.txt', '_wAOD.txt', '.nc')], 'files')
    nc = c.mod('spatial').netCDF4.Dataset(R[-1], 'r')
    for i, q in enumerate(DEG):
        c.close(c.array(nc.variables[q][:])*1e9, (X[i]*1e9).reshape(n, 1), 1e-6, 'coefficients')
        c.close(c.array(nc.groups['ESL'].variables[q][:])*1e9, eus[i]*(1e9/float(d[1])), 1e-6, 'ESL')
    nc.close()

class Rand:
    """numpy with chosen random numbers"""
    def __init__(s, c, np, draw):
        s._np, s.random, s.draws = np, s, []
        s._c, s._draw = c, draw
    def __getattr__(s, k):
        return getattr(s._np, k)
    def rand(s, *shape):
        s.draws.append(s._draw(len(s.draws), shape))
        return s.draws[-1].copy()

MC = [dict(gs=g, L=L, M=M, rad=r, fmt=fm, mean=me, gia=gi, destripe=de, atm=at, solver=s, runs=n, extra=x, free=fr, response=rs) for g, L, M, r, fm, me, gi, de, at, s, n, x, fr, rs in (
    ([4, 5, 7], 2, None, 0, 'netCDF4', None, None, False, False, 'inv', 2, 0, True, False), ([20, 21], 3, 2, 300, 'HDF5', 'netCDF4', 'AW13-ICE6G', False, False, 'lstsq', 1, 1, True, False), ([97, 98], 2, None, 0, 'netCDF4', None, None, False, True, 'gelsd', 2, 2, True, False),
    ([10, 11, 12], 2, None, 400, 'HDF5', None, None, False, False, 'gelsy', 3, 1, False, False), ([30, 31], 10, None, 0, 'netCDF4', None, None, True, False, 'gelss', 2, 0, False, False), ([40, 41], 2, None, 0, 'netCDF4', 'ascii', 'IJ05-R2', False, False, 'inv', 2, 1, False, True), ([97, 98], 3, 2, 300, 'HDF5', 'netCDF4', 'AW13-ICE6G', False, True, 'lstsq', 1, 1, True, False))]

@harness('C40', configs=MC, mix=6, ok=lambda gs, L, M, destripe, atm, free, **k: M != L and (L == 10) == destripe and not (L == 10 and (free or atm)))
def runs(c, gs, L, M, rad, fmt, mean, gia, destripe, atm, solver, runs, extra, free, response):
    """perturbed runs: coefficients and draws free, or the size of the errors free"""
    P = c.script('monte_carlo_degree_one')
    if free:
        value = lambda k, l, m, i: 1e-12*(l + m) if k[0] == 'e' else c.real(f'{k}{l},{m},{i}', 0.01, 10)*(1e-9*(-1)**(l + m//2 + i + len(k)))
    else:
        value = lambda k, l, m, i: 1e-12*(l + m) if k[0] == 'e' else 1e-9*((7*l + 3*m + 5*i + len(k)) % 11 - 5)
    C, S, t, kw, gia_str, base, Mx, _, _ = anomalies(c, gs, gs, L, M, mean, gia, None, False, destripe, value)
    n = len(gs)
    drift = degree_one(c, kw['GIA_FILE'], gia, L, t) if gia else c.zeros((3, n))
    jump = c.zeros((3, n))
    if atm:
        A = {k: c.zeros((L+1, Mx+1, n)) for k in ('clm', 'slm')}
        for (q, k, l, m), x in atm_files(c, L).items():
            for j, g in enumerate(gs):
                if era(g) == q and m <= Mx:
                    A[k][l, m, j] = x
        for k in A:
            A[k] = centred(c, A[k].reshape(-1, n)).reshape(L+1, Mx+1, n)
        C, S = C - A['clm'], S - A['slm']
        for i, (k, l, m) in enumerate(IDX):
            jump[i] = A[k][l, m]
    tag = f'L{L}{f"M{M}" if M else ""}{"_FL" if destripe else ""}{"_wATM" if atm else ""}_{gs[0]:03d}-{gs[-1]:03d}'
    size = 1.0 if free else c.real('size', 0.5, 2)
    err = [noise_file(c, base, tag, fmt, L, Mx, L+1, 9, size)]
    files = []
    for e in range(extra):
        Y = c.gt.harmonics(lmax=L+1, mmax=L+1)
        a, b = ((np.tril(1.0 + np.add.outer((3+e)*np.arange(L+2), np.arange(L+2)*2) % 5))*1e-12 for _ in range(2))
        Y.clm, Y.slm, Y.time, Y.month = c.arr(a)*size, c.arr(b)*size, np.float64(2004.5), np.int64(30)
        files.append(base/f'error{e}.{EXT[fmt]}')
        getattr(Y, 'to_' + fmt)(files[-1])
        err.append((a[:L+1, :Mx+1], b[:L+1, :Mx+1]))
    rng, numbers = np.random.default_rng(7), []
    def draw(i, shape):
        if not free:
            numbers.append(np.round(rng.uniform(0, 1, shape), 3))
            return c.arr(numbers[-1])
        return c.reals(f'draw{i}', shape, 0, 1)
    h, k, l = love(c, L)
    LV = c.gt.load_love_numbers(L, LOVE_NUMBERS=0, REFERENCE='CF', FORMAT='class')
    d = RHO*RAD*(2*np.arange(L+1)+1)/(1 + k)/3
    f = d*2*np.pi*gauss_quadrature(rad, L)
    D = np.array(BASE)[:4]
    lon, lat = 30.0 + 60.0*np.arange(6), 67.5 - 45.0*np.arange(4)
    mask = write_mask(c, D, lon, lat, 'LSMASK')
    B = Basis(D, lon, lat, L, Mx)
    if kw.get('MEAN_FILE'):
        kw['MEAN_FILE'] = pathlib.Path(kw['MEAN_FILE'])
    (base/'geocenter').mkdir(exist_ok=True)
    original, sea, calls = P.np, c.gt.sea_level_equation, []
    sea_numbers = [np.round(rng.uniform(-1, 1, (6, 4)), 3) for j in range(n*runs)]
    fields = [size*c.arr(x) for x in sea_numbers]
    def respond(clm, slm, glon, glat, land, **kw):
        calls.append((clm.copy(), slm.copy(), c.array(land).copy(), kw))
        return fields[len(calls) - 1].copy()
    P.np = R = Rand(c, original, draw)
    c.gt.sea_level_equation = respond if response else sea
    try:
        out = P.monte_carlo_degree_one(base, 'CSR', 'RL06', L, rad, START=gs[0], END=gs[-1], MISSING=[g for g in range(gs[0], gs[-1]) if g not in gs], MMAX=M, DESTRIPE=destripe, RUNS=runs, LOVE_NUMBERS=0, ATM=atm, SOLVER=solver, EXPANSION=L, LANDMASK=mask, ERROR_FILES=files, DATAFORM=fmt, FINGERPRINT=response, **kw)
    finally:
        P.np, c.gt.sea_level_equation = original, sea
    name = f'CSR_RL06_MPIOM{"_SLF" if response else ""}{gia_str}_monte_carlo{"_FL" if destripe else ""}'
    c.same([str(x) for x in out], [str(base/'geocenter'/f'{name}.{x}') for x in ('txt', 'nc')], 'files')
    c.same(len(R.draws), 2*n*runs*(1 + extra), 'draws')
    done = []
    def loading(cells):
        j = len(done)
        done.append(j)
        Y = c.gt.gen_stokes(cells, c.arr(lon), c.arr(lat), UNITS=1, LMIN=0, LMAX=L, LOVE=LV)
        clm, slm, land, kw = calls[j]
        c.close(clm*1e9, Y.clm*1e9, 1e-6, 'land load')
        c.close(slm*1e9, Y.slm*1e9, 1e-6, 'land load')
        c.close(land, c.arr(B.land), 0, 'land')
        c.same((int(kw['LMAX']), kw['POLAR'], kw['FILL_VALUE']), (L, True, 0), 'options')
        return [sum((B.w*q)[i]*fields[j][i] for i in np.ndindex(*q.shape)) for q in B.one]
    it, X = iter(R.draws), []
    for r in range(runs):
        CP, SP, first = C.copy(), S.copy(), seasonal(t) - drift - jump
        for j in range(n):
            for a, b in err:
                p, q = (1 - 2*next(it))*a*size, (1 - 2*next(it))*b*size
                CP[:, :, j], SP[:, :, j] = CP[:, :, j] + p, SP[:, :, j] + q
                for i, (key, l, m) in enumerate(IDX):
                    first[i, j] = first[i, j] + (p if key == 'clm' else q)[l, m]
        Y = solve(c, B, CP, SP, f, first, n, L, Mx, loading=loading if response else None)[0]
        X.append(centred(c, Y*(1/float(d[1])) + drift + jump))
    nc = c.mod('spatial').netCDF4.Dataset(out[1], 'r')
    for i, q in enumerate(DEG):
        for r in range(runs):
            c.close(c.array(nc.variables[q][:])[:, r]*1e9, X[r][i]*1e9, 1e-6, 'coefficients of a run')
    c.close(c.array(nc.variables['time'][:]), c.arr(t), 1e-9, 'time')
    c.same([int(x) for x in nc.variables['month'][:]], list(gs), 'month')
    nc.close()
    skip = open(out[0]).read().split('# End of YAML header')[0].count('\n') + 1
    T = c.np.loadtxt(out[0], skiprows=skip, ndmin=2)
    mean = sum(X[1:], X[0])*(1.0/runs)
    c.same(T.shape, (n, 8), 'table')
    c.close(T[:, 0], c.arr(t), 1e-4, 'time')
    c.close(T[:, 7], c.arr(np.array(gs)), 0, 'month')
    for i in range(3):
        c.close(T[:, 1+i]*1e9, mean[i]*1e9, 1e-3 if atm else 1e-4, 'mean')
    if not free:
        # deviations are those of the errors alone
        N = types.SimpleNamespace(zeros=np.zeros)
        it, Z = iter(numbers), []
        for r in range(runs):
            CP, SP, first = np.zeros((L+1, Mx+1, n)), np.zeros((L+1, Mx+1, n)), np.zeros((3, n))
            for j in range(n):
                for a, b in err:
                    p, q = (1 - 2*next(it))*a, (1 - 2*next(it))*b
                    CP[:, :, j], SP[:, :, j] = CP[:, :, j] + p, SP[:, :, j] + q
                    for i, (key, l, m) in enumerate(IDX):
                        first[i, j] += (p if key == 'clm' else q)[l, m]
            done = []
            def numeric(cells):
                done.append(1)
                return [(B.w*q*sea_numbers[len(done) - 1 + r*n]).sum() for q in B.one]
            Z.append(centred(N, solve(N, B, CP, SP, f, first, n, L, Mx, loading=numeric if response else None)[0]/float(d[1])))
        Z = np.array(Z)*1e9
        k = np.sqrt(((Z - Z.mean(axis=0))**2).mean(axis=0))
        for i in range(3):
            c.close(T[:, 4+i]*1e9, size*c.arr(k[i]), 1e-4*max(1, k.max()), 'error')

def degree_one(c, f, gia, L, t):
    """accumulated drift, taken from the model as read (decided in C31)"""
    G = c.gt.gia(lmax=L).from_GIA(f, GIA=gia)
    out = c.zeros((3, len(t)))
    for i, (k, l, m) in enumerate(IDX):
        for j in range(len(t)):
            out[i, j] = getattr(G, k)[l, m]*(t[j] - 2003.3)
    return out

doc('C40', 'every coefficient, drift, correction and ocean model of 2-3 months to degree 3 (decorrelation to 10; patterns of 14 months to degree 16), listed masks and months', ['netCDF4 files are an in-memory stand-in in the encoding; every model is replayed through the real library', 'the response of the ocean to the load is an arbitrary field with fingerprints (the response itself is decided in C24)'])
