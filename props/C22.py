"""C22 geocenter files"""
import pathlib
import numpy as np
from symx.harness import harness, doc
from props.hutil import *
from props.C21 import DEG, ERR, R0

def signed(c, name, n, hi=10, lo=1e-6):
    v = c.reals(name, n, lo, hi)
    for i in range(n):
        if i % 2:
            v[i] = -v[i]
    return v

def path(c, *names):
    p = pathlib.Path(c.tmpdir()).joinpath(*names)
    p.parent.mkdir(parents=True, exist_ok=True)
    return p

def middle(g):
    """decimal year inside month g"""
    return 2002.0 + (g - 0.5)/12.0

def dates(c, gs, first=True):
    """dates anywhere in their months but the ends"""
    return [c.real(f'time{i}', middle(g) - 0.03, middle(g) + 0.03) for i, g in enumerate(gs)]

def months(c, g, gs):
    c.same([int(x) for x in c.array(g.month)], list(gs), 'months')

@harness('C22', configs=[dict(gs=g, header=h) for g, h in (([4, 5, 8], True), ([10, 118, 119, 121], False), ([13], True), (MISSION, True))])
def gravis(c, gs, header):
    n = len(gs)
    v = {k: signed(c, k, n, 1e-9, 1e-12) for k in DEG + ERR}
    a = {k: signed(c, 'anom' + k, n) for k in DEG}
    f = path(c, 'GRAVIS-2B_GFZOP_GEOCENTER_0002.dat')
    t = [c.real(f'time{i}', 2002.0 + (g - 1)/12.0 - 0.03, 2002.0 + (g - 1)/12.0 + 0.03) for i, g in enumerate(gs)]
    with f.open('w') as o:
        if header:
            o.write('TITLE: geocenter 1.0 2.0\nDATE: 2020.5\nPRODUCT: data\n')
        for i in range(n):
            o.write(f'{52368.0+i:8.1f} {t[i]:10.5f}')
            for k in DEG:
                o.write(f' {v[k][i]:20.12E} {a[k][i]:9.4f} {v["e"+k][i]*1e10:12.8f}')
            o.write('\n')
        o.write('\n')
    g = c.gt.geocenter().from_gravis(f, header=header)
    for k in DEG:
        c.close(g[k]*1e9, v[k]*1e9, 1e-9, k)
        c.close(g['e'+k]*1e9, v['e'+k]*1e9, 1e-7, 'e'+k)
    c.close(g.time, c.array(t), 1e-5, 'time')
    months(c, g, gs)

SL = [dict(gs=g, header=h, order=o, aod=a, radius=r) for g, h, o, a, r in (([4, 5, 8], 0, 0, False, None), ([120, 121, 123], 2, 1, False, 6.378136e9), ([4, 10], 1, 0, True, None), ([14], 0, 1, True, 6.378136e9), (MISSION, 1, 1, False, None))]

@harness('C22', configs=SL, mix=24)
def slr(c, gs, header, order, aod, radius):
    n = len(gs)
    cols = [['time', 'X', 'Y', 'Z', 'X_sigma', 'Y_sigma', 'Z_sigma'], ['time', 'Z', 'Z_sigma', '', 'Y', 'Y_sigma', 'X_sigma', 'X']][order]
    v = {k: signed(c, k or 'other', n) for k in cols}
    for k in cols:
        if 'sigma' in k:
            v[k] = c.reals('p' + k, n, 1e-4, 2)
    v['time'] = dates(c, gs)
    f = path(c, 'geocenter', 'GCN_L1_L2_30d_CF-CM.txt')
    with f.open('w') as o:
        o.write('header line 1.0\n'*header)
        for i in range(n):
            o.write(' '.join(f'{v[k][i]:12.6f}' for k in cols) + '\n')
    mean = {}
    for i, g in enumerate(gs):
        y, m = 2002 + (g - 1)//12, (g - 1) % 12 + 1
        days = 1 + (i + 2) % 3
        for k in 'XYZ':
            mean[k, i] = 0.0
        if aod:
            with path(c, 'AOD1B', 'RL06', 'geocenter', f'AOD1B_RL06 glo_{y:4d}_{m:02d}.txt').open('w') as o:
                o.write('# Geocenter time series\n')
                for d in range(days):
                    x = {k: signed(c, f'aod{k}{i},{d}', 1)[0] for k in 'XYZ'}
                    o.write(f'{y:4d}-{m:02d}-{d+1:02d}T06:00:00 {x["X"]:12.6f} {x["Y"]:12.6f} {x["Z"]:12.6f}\n')
                    for k in 'XYZ':
                        mean[k, i] = mean[k, i] + x[k]/float(days)
    kw = dict(AOD=True, release='RL06') if aod else {}
    G = c.gt.geocenter() if radius is None else c.gt.geocenter(radius=radius)
    g = G.from_SLR(f, columns=cols, header=header, **kw)
    s = (radius or R0)*np.sqrt(3.0)
    for k, x in zip(DEG, 'ZXY'):
        c.close(g[k]*s, v[x] - c.array([mean[x, i] for i in range(n)]), 1e-5, k)
        c.close(g['e'+k]*s, v[x + '_sigma'], 1e-5, 'e' + k)
    c.close(g.time, c.array(v['time']), 1e-5, 'time')
    months(c, g, gs)

HEAD = '''header:
  title: Geocenter time series
  variables:
    mid-epoch_time:
      comment: 1st column
      units: decimal-years
    {}:
      comment: {} column
    {}:
      comment: {} column
    {}:
      comment: {} column
    month:
      comment: 5th column
# End of YAML header
'''

@harness('C22', configs=[dict(gs=g, order=o) for g, o in (([4, 5, 8], (2, 3, 4)), ([119, 121], (4, 2, 3)), ([200], (3, 4, 2)), (MISSION, (3, 2, 4)))])
def uci(c, gs, order):
    n = len(gs)
    v = {k: signed(c, k, n, 1e-9, 1e-12) for k in DEG}
    t = dates(c, gs)
    f = path(c, 'GCN.txt')
    nth = {2: '2nd', 3: '3rd', 4: '4th'}
    with f.open('w') as o:
        o.write(HEAD.format(*[x for k, q in zip(DEG, order) for x in (k, nth[q])]))
        for i in range(n):
            row = dict(zip(order, [f'{v[k][i]:18.10E}' for k in DEG]))
            o.write(f'{t[i]:12.6f} {row[2]} {row[3]} {row[4]} {gs[i]:03d}\n')
    g = c.gt.geocenter().from_UCI(f)
    for k in DEG:
        c.close(g[k]*1e9, v[k]*1e9, 1e-9, k)
    c.close(g.time, c.array(t), 1e-5, 'time')
    months(c, g, gs)

@harness('C22', configs=[dict(gs=g, months=m, header=h) for g, m, h in (([4, 5, 8], True, True), ([10, 11, 119], False, True), ([15], False, False), ([118, 119, 121], True, False), (MISSION, True, True), (list(range(4, 200)), False, False))])
def swenson(c, gs, months, header):
    n = len(gs)
    v = {k: signed(c, k, n, 10, 1e-3) for k in DEG}
    t = dates(c, gs)
    f = path(c, 'gad_gsm.rl05.txt')
    with f.open('w') as o:
        if header:
            o.write('degree one in mm w.e. 1.0\n Time C10 C11 S11\n')
        for i in range(n):
            o.write(f'{t[i]:12.6f} ' + ' '.join(f'{v[k][i]:12.8f}' for k in DEG) + (f' {gs[i]:d}' if months else '') + '\n')
    g = c.gt.geocenter().from_swenson(f, header=header)
    for k in DEG:
        c.close(g[k]*(5.517*6.371e8*10), v[k], 1e-6, k)
    c.close(g.time, c.array(t), 1e-5, 'time')
    c.same([int(x) for x in c.array(g.month)], list(gs), 'months')

@harness('C22', configs=[dict(gs=g, jpl=j) for g, j in (([4, 5, 8], True), ([13, 14], False), ([120], True), ([24, 36, 37], False), (MISSION, True), (MISSION, False))])
def tellus(c, gs, jpl):
    n = len(gs)
    v = {k: signed(c, k, n, 1e-9, 1e-12) for k in DEG}
    e = {k: c.reals('e' + k, n, 1e-13, 1e-11) for k in DEG}
    f = path(c, 'TN-13_GEOC.txt')
    want = []
    with f.open('w') as o:
        o.write('header\n' + ('end of header ====\n' if jpl else "'(a6,i3)'\n"))
        for i, x in enumerate(gs):
            y, m = 2002 + (x - 1)//12, (x - 1) % 12 + 1
            leap = 366.0 if y % 4 == 0 else 365.0
            start = sum([31, 29 if y % 4 == 0 else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][:m-1])
            if jpl:
                d0, d1 = 2 + i % 4, 24 + i % 5
                tail = f' {y:4d}{m:02d}{d0:02d}.0000 {y:4d}{m:02d}{d1:02d}.0000'
                key = 'GRCOF2'
                want.append(y + (start + (d0 + d1)/2.0 - 1)/leap)
            else:
                tail = ''
                key = f'{y:4d}{m:02d}'
                nd = [31, 29 if y % 4 == 0 else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m-1]
                want.append(y + (start + nd/2.0)/leap)
            o.write(f'{key} 1 0 {v["C10"][i]:20.12E} {0.0:20.12E} {e["C10"][i]:20.12E} {0.0:20.12E}{tail}\n')
            o.write(f'{key} 1 1 {v["C11"][i]:20.12E} {v["S11"][i]:20.12E} {e["C11"][i]:20.12E} {e["S11"][i]:20.12E}{tail}\n')
    g = c.gt.geocenter().from_tellus(f, JPL=jpl)
    for k in DEG:
        c.close(g[k]*1e9, v[k]*1e9, 1e-9, k)
        c.close(g['e'+k]*1e9, e[k]*1e9, 1e-9, 'e'+k)
    c.close(g.time, c.array(want), 1e-6, 'time')
    months(c, g, gs)

@harness('C22', configs=[dict(group=None, comp=None), dict(group='iter', comp=None), dict(group=None, comp='gzip'), dict(group='iter', comp=None, gs=MISSION)])
def netcdf(c, group, comp, gs=(4, 5, 8)):
    import gzip
    n = len(gs)
    v = {k: signed(c, k, n) for k in DEG}
    f = path(c, 'geocenter.nc')
    nc = c.mod('geocenter').netCDF4.Dataset(f, 'w')
    w = nc.createGroup(group) if group else nc
    w.createDimension('time', n)
    gs = list(gs)
    for k, x in list(v.items()) + [('time', c.array(dates(c, gs))), ('month', c.arr(gs, dtype=int))]:
        y = w.createVariable(k, 'i4' if k == 'month' else 'f8', ('time',))
        y[:] = x
    nc.close()
    kw = {}
    if comp:
        p = f.with_name('geocenter.nc.gz')
        with gzip.open(p, 'wb') as o:
            o.write(f.read_bytes())
        f, kw = p, dict(compression=comp)
    g = c.gt.geocenter().from_netCDF4(f, group=group, **kw)
    for k in DEG:
        c.close(g[k], v[k], 1e-12, k)
    months(c, g, gs)

doc('C22', 'all coefficients, coordinates, uncertainties and dates within their months (away from the first and last day), listed sets of months and the whole record, column orders and headers')
