"""C30 satellite laser ranging files"""
import numpy as np
import datetime
from symx.harness import harness, doc
from props.hutil import *
from props.C22 import path, signed, middle

def year(mjd):
    d = datetime.datetime(1858, 11, 17) + datetime.timedelta(days=mjd)
    y = datetime.datetime(d.year, 1, 1)
    return d.year + (d - y).total_seconds()/(datetime.datetime(d.year+1, 1, 1) - y).total_seconds()

def mjd(y, m, d=1):
    return float((datetime.datetime(y, m, d) - datetime.datetime(1858, 11, 17)).days)

def begin(g):
    """first day of month g"""
    return mjd(2002 + (g-1)//12, (g-1) % 12 + 1)

def check(c, R, keys, v, t, gs, tol=1e-5):
    for k in keys:
        if k in v:
            c.close(c.array(R[k])*1e6, v[k]*1e6, 1e-9, k)
    c.close(R['time'], c.array(t), tol, 'time')
    c.same([int(x) for x in c.array(R['month'])], list(gs), 'months')

def reader(c, name):
    return getattr(c.mod('SLR.' + name), name)

# months as in the files, months expected
GS = [([4, 5, 8], None), ([10, 11, 12, 13], None), ([117, 118, 118, 120], [117, 118, 119, 120]), ([159, 160, 160, 163], [159, 160, 161, 163])]
# the whole record, two months dated into the month before
ALL = ([{119: 118, 161: 160}.get(g, g) for g in MISSION], MISSION)

@harness('C30', configs=[dict(kind=k, gs=g, out=o) for k, (g, o) in (('tn14', GS[0]), ('tn14', GS[1]), ('tn11', GS[0]), ('TN-11', GS[1]), ('gfz', GS[1]), ('gravis', GS[0]), ('gravis', GS[1]), ('tn07', GS[0]), ('tn05', GS[1]), ('tn14', ALL), ('gravis', ALL), ('gfz', ALL), ('tn11', ALL))])
def c20(c, kind, gs, out):
    out = out or gs
    n = len(gs)
    v = dict(data=signed(c, 'c', n, 1e-3, 1e-5), error=c.reals('e', n, 1e-13, 1e-9))
    a = signed(c, 'a', n)
    name, head, blank = {'tn14': ('TN-14_C30_C20_GSFC_SLR.txt', 'Title: 1.0\nProduct:\n', 0), 'tn11': ('TN-11_C20_SLR.txt', 'UPDATED 2.5\nPRODUCT: SLR\n', 0), 'TN-11': ('tn-11_c20_slr.txt', 'x 1.0\nPRODUCT:\n', 1), 'gfz': ('GFZ_RL06_C20_SLR.dat', 'x\nPRODUCT:\n', 0),
        'gravis': ('GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0002.dat', 'x\nPRODUCT:\n', 1), 'tn07': ('TN-07_C20_SLR.txt', 'x\nPRODUCT:\n', 0), 'tn05': ('TN-05_C20_SLR.txt', 'x 7.0\nPRODUCT:\n', 2)}[kind]
    f = path(c, name)
    t = []
    with f.open('w') as o:
        o.write(head + '\n'*blank)
        for i, g in enumerate(gs):
            d = begin(g) + (0.5 if kind == 'tn14' else 0.0)
            y = c.real(f'y{i}', year(d) - 0.03, year(d) + 0.03) if kind in ('gfz', 'gravis') else year(d)
            t.append(y)
            if kind == 'gfz' and i == 1:
                o.write(f'{d:8.1f} {y:10.5f} NaN NaN NaN\n')
            o.write(f'{d:8.1f} {y:10.5f} {v["data"][i]:22.14E} {a[i]:9.4f} {v["error"][i]*1e10:14.10f} {d+30:8.1f} {year(d+30):9.4f} {"G*" if i % 2 else "Gm"}\n')
            if kind == 'gravis':
                o.write('\n')
    R = reader(c, 'C20')(f)
    check(c, R, ('data', 'error'), v, t, out)

@harness('C30', configs=[dict(order=o) for o in (0, 1)])
def c20_flagged(c, order):
    """months with two solutions: the flagged one counts"""
    gs, star = [4, 5, 5, 8, 9], [0, order, 1 - order, 0, 1]
    n = len(gs)
    v, e = signed(c, 'c', n, 1e-3, 1e-5), c.reals('e', n, 1e-13, 1e-9)
    f = path(c, 'TN-07_C20_SLR.txt')
    with f.open('w') as o:
        o.write('PRODUCT:\n')
        for i, g in enumerate(gs):
            d = begin(g) + i
            o.write(f'{d:8.1f} {year(d):10.5f} {v[i]:22.14E} 1.0 {e[i]*1e10:14.10f}{" *" if star[i] else ""}\n')
    R = reader(c, 'C20')(f)
    use = [0, 2 - order, 3, 4]
    check(c, R, ('data', 'error'), dict(data=v[use], error=e[use]), [year(begin(gs[i]) + i) for i in use], [4, 5, 8, 9])

@harness('C30', configs=[dict(gs=g, out=o, aod=a, header=h) for (g, o), a, h in zip(GS + [ALL], (None, False, True, None, True), (0, 2, 1, 3, 1))])
def c20_csr(c, gs, out, aod, header):
    n = len(gs)
    v = dict(data=signed(c, 'c', n, 1e-3, 1e-5), error=c.reals('e', n, 1e-12, 1e-9))
    a = signed(c, 'a', n)
    t = [c.real(f't{i}', middle(g) - 0.03, middle(g) + 0.03) for i, g in enumerate(gs)]
    f = path(c, 'C20_RL05.txt')
    with f.open('w') as o:
        o.write('# 1.0 2.0\n'*header)
        for i in range(n):
            o.write(f'{t[i]:10.4f} {v["data"][i]:22.14E} {1.5+i:8.4f} {v["error"][i]*1e10:14.10f} {a[i]:12.8f} 53000.0 53030.0\n')
    R = reader(c, 'C20')(f, **({} if aod is None else dict(AOD=aod)))
    if aod is not False:
        v['data'] = v['data'] - a*1e-10
    check(c, R, ('data', 'error'), v, t, out or gs, 3e-4)

@harness('C30', configs=[dict(name=nm, kind=k, gs=g, out=o) for nm, k, (g, o) in (('C30', 'tn14', GS[0]), ('C30', 'tn14', GS[1]), ('C30', 'gravis', GS[1]), ('C50', 'gsfc', GS[0]), ('C50', 'gsfc', GS[1]), ('C30', 'lares', GS[1]), ('C40', 'lares', GS[0]), ('C50', 'lares', GS[2]), ('C30', 'lares', GS[3]), ('C30', 'tn14', ALL), ('C30', 'gravis', ALL), ('C50', 'gsfc', ALL), ('C40', 'lares', ALL))])
def zonal(c, name, kind, gs, out):
    n = len(gs)
    k3 = {('C30', 'tn14'): (5, 7, 10), ('C30', 'gravis'): (5, 7, 14), ('C50', 'gsfc'): (10, 12, 13)}.get((name, kind))
    v = dict(data=signed(c, 'c', n, 1e-3, 1e-5), error=c.reals('e', n, 1e-13, 1e-9))
    other = c.reals('x', (n, 15), 1e-6, 10)
    t, skip = [], 0
    f = path(c, {'tn14': 'TN-14_C30_C20_GSFC_SLR.txt', 'gravis': 'GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0002.dat', 'gsfc': 'GSFC_SLR_C20_C30_C50_GSM_replacement.txt', 'lares': f'{name}_LARES_filtered.txt'}[kind])
    kw = {}
    with f.open('w') as o:
        o.write('year value 1.0\n' if kind == 'lares' else 'x 1.0\n' + ('PRODUCT:\n' if kind == 'gravis' else 'Product:\n'))
        for i, g in enumerate(gs):
            d = begin(g)
            if kind == 'lares':
                y = c.real(f'y{i}', middle(g) - 0.03, middle(g) + 0.03)
                x = c.real(f'v{i}', -9, -1) if i % 2 else c.real(f'v{i}', 1, 9)
                o.write(f'{y:12.7f} {x:14.10f}\n')
                t.append(y)
                v['data'][i] = x*1e-10
                continue
            y = c.real(f'y{i}', year(d) - 0.03, year(d) + 0.03) if kind == 'gravis' else year(d)
            t.append(y)
            row = [f'{d:8.1f}', f'{y:10.5f}'] + [f'{x:12.8f}' for x in other[i, 2:k3[2]]]
            if kind != 'gravis' and i == 1:
                o.write(' '.join(row[:5] + ['NaN', 'NaN', 'NaN'] + [f'{d:8.1f}', f'{year(d):9.4f}'] + ['NaN']*(k3[2] - 10)) + '\n')
            row[k3[0]], row[k3[1]] = f'{v["data"][i]:22.14E}', f'{v["error"][i]*1e10:14.10f}'
            o.write(' '.join(row) + '\n')
    if kind == 'lares':
        m = c.real('mean', -1e-6, 1e-6) if gs != GS[1][0] else None
        if m is not None:
            kw = {f'{name}_MEAN': m}
        v['data'] = v['data'] + (9.5717395773300e-07 if m is None else m)
        v['error'] = c.zeros(n)
    R = reader(c, name)(f, **kw)
    check(c, R, ('data', 'error'), v, t, out or gs)

LOW = [(l, m) for l in range(2, 6) for m in range(l+1)] + [(6, 1)]

def csr_file(c, gs, header=1):
    """file of monthly 5x5 fields: coefficients, errors squared, decimal years, mean dates"""
    n = len(gs)
    mean = {(k, l, m): 0.0 if m == 0 and 's' in k else c.real(f'mean{k}{l},{m}', 1e-11, 1e-6) for k in ('clm', 'slm', 'eclm', 'eslm') for l, m in LOW}
    an = {(k, l, m, i): 0.0 if m == 0 and 's' in k else c.real(f'{k}{l},{m},{i}', 0.01, 50) for k in ('clm', 'slm', 'eclm', 'eslm') for l, m in LOW for i in range(n)}
    f = path(c, 'CSR_Monthly_5x5_Gravity_Harmonics.txt')
    t, mid = [], []
    with f.open('w') as o:
        o.write('title 1.0\n'*header + 'Mean of the fields\n' + '='*80 + '\n')
        for l, m in LOW:
            o.write(f'{l:3d}{m:3d} ' + ' '.join(f'{mean[k,l,m]:22.14E}'.replace('E', 'D') for k in ('clm', 'slm', 'eclm', 'eslm')) + '\n')
        o.write('other text\nend of header ====\n')
        for i, g in enumerate(gs):
            y, m = 2002 + (g-1)//12, (g-1) % 12 + 1
            d0, d1 = begin(g), begin(g+1)
            t.append(year(0.5*(d0 + d1)))
            mid.append(0.5*(d0 + d1))
            o.write(f'{i+1:5d} ARC {m:3d} {y:4d} {m:3d} {d0:9.2f} {d1:9.2f} 1.0\n')
            for l, m in LOW:
                o.write(f'{l:3d}{m:3d} ' + ' '.join([f'{an[k,l,m,i]:16.10f}' for k in ('clm', 'slm')] + ['1.0', '2.0'] + [f'{an[k,l,m,i]:16.10f}' for k in ('eclm', 'eslm')]) + '\n')
    e = {k: c.zeros((7, 7, n)) for k in ('clm', 'slm', 'eclm', 'eslm')}
    for l, m in LOW:
        for i in range(n):
            for k in ('clm', 'slm'):
                e[k][l, m, i] = mean[k, l, m] + an[k, l, m, i]*1e-10
                e['e'+k][l, m, i] = (mean['e'+k, l, m]*1e6)**2 + (an['e'+k, l, m, i]*1e-4)**2
    return f, e, t, mid

@harness('C30', configs=[dict(gs=g, header=h, as_str=s) for g, h, s in (([4, 5], 1, False), ([13], 4, True), (list(range(165, 177)), 2, False))])
def csr_fields(c, gs, header, as_str):
    f, e, t, mid = csr_file(c, gs, header)
    R = c.gt.read_SLR_harmonics(str(f) if as_str else f)
    for k in ('clm', 'slm'):
        c.close(R[k]*1e6, e[k]*1e6, 1e-9, k)
        c.close((R['error'][k]*1e6)**2, e['e'+k], 1e-8, 'error ' + k)
    c.close(R['time'], c.arr(t), 1e-9, 'time')
    c.close(R['MJD'], c.arr(mid), 1e-9, 'MJD')

@harness('C30', configs=[dict(name=n, l=l) for n, l in (('C30', 3), ('C40', 4), ('C50', 5))])
def csr_zonal(c, name, l):
    gs = [4, 5, 7]
    f, e, t, mid = csr_file(c, gs)
    R = reader(c, name)(f)
    c.close(c.array(R['data'])*1e6, e['clm'][l, 0]*1e6, 1e-9, 'data')
    c.close((c.array(R['error'])*1e6)**2, e['eclm'][l, 0], 1e-8, 'error')
    check(c, R, (), {}, t, gs)

def weeks(n, t0=2004.02):
    return [round(t0 + 7*i/365.25, 5) for i in range(n)]

def monthly(c, t, v, dates):
    """means of the 28 days closest to each date"""
    d = np.repeat(t, 7) + np.tile((np.arange(7) - 3.5)/365.25, len(t))
    T, V = [], []
    for x in dates:
        k = np.argsort(np.abs(d - x), kind='stable')[:28]
        T.append(d[k].mean())
        s = 0.0
        for i in k:
            s = s + v[int(i)//7]
        V.append(s/28.0)
    return T, c.array(V)

def gsfc_file(c, n, t0=2004.02):
    v = {(k, l, m, i): 0.0 if m == 0 and 's' in k else (c.real(f'{k}{l},{m},{i}', -1e-6, -1e-11) if (l+m+i) % 2 else c.real(f'{k}{l},{m},{i}', 1e-11, 1e-6)) for k in ('clm', 'slm') for l, m in LOW for i in range(n)}
    t = weeks(n, t0)
    f = path(c, 'gsfc_slr_5x5c61s61.txt')
    with f.open('w') as o:
        o.write('Title: x 1.0\nProduct: 7-day\n')
        for i in range(n):
            o.write(f'{53000.0+7*i:9.2f} {t[i]:12.5f}\n')
            for l, m in LOW:
                o.write(f'{l:3d}{m:3d} {v["clm",l,m,i]:22.14E} {v["slm",l,m,i]:22.14E}\n')
    return f, v, t

@harness('C30', configs=[dict(n=n, as_str=s) for n, s in ((1, False), (3, True), (16, False))])
def gsfc_fields(c, n, as_str):
    f, v, t = gsfc_file(c, n)
    R = c.gt.read_SLR_harmonics(str(f) if as_str else f)
    for k in ('clm', 'slm'):
        e = c.zeros((7, 7, n))
        for l, m in LOW:
            for i in range(n):
                e[l, m, i] = v[k, l, m, i]
        c.close(R[k]*1e6, e*1e6, 1e-9, k)
    c.close(R['time'], c.arr(t), 1e-9, 'time')
    c.close(R['MJD'], c.arr([53000.0+7*i for i in range(n)]), 1e-9, 'MJD')

@harness('C30', configs=[dict(name=n, l=l, m=m) for n, l, m in (('C40', 4, 0), ('C50', 5, 0), ('CS2', 2, 1), ('CS2', 2, 2), ('CS2', 2, None))])
def gsfc_months(c, name, l, m):
    n = 9
    f, v, t = gsfc_file(c, n)
    D = c.arr([t[3] + 0.2/365.25, t[4] + 2.4/365.25, t[6] - 1.3/365.25])
    R = reader(c, name)(f, DATE=D, **(dict(ORDER=m) if name == 'CS2' and m else {}))
    m = 1 if m is None else m
    for k, o in (('clm', 'data' if name != 'CS2' else 'C2m'), ('slm', 'S2m')):
        if name != 'CS2' and k == 'slm':
            continue
        T, e = monthly(c, np.array(t), [v[k, l, m, i] for i in range(n)], [float(x) for x in D])
        c.close(c.array(R[o])*1e6, e*1e6, 1e-9, o)
        c.close(R['error' if name != 'CS2' else 'e'+o], c.zeros(3), 0, 'error')
    c.close(R['time'], c.arr(T), 1e-9, 'time')

@harness('C30', configs=[dict(n=n, near=k) for n, k in ((6, None), (5, 14), (400, None))])
def weekly(c, n, near):
    t = weeks(n, 2004.05)
    v = c.reals('v', n, -5, 5)
    D = c.arr([t[1] + 0.2/365.25, t[3] + 1.3/365.25])
    R = c.mod('read_SLR_harmonics').convert_weekly(c.arr(t), v, DATE=D, **({} if near is None else dict(NEIGHBORS=near)))
    d = np.repeat(t, 7) + np.tile((np.arange(7) - 3.5)/365.25, n)
    for i, x in enumerate(D):
        k = np.argsort(np.abs(d - float(x)))[:near or 28]
        s = 0.0
        for j in k:
            s = s + v[int(j)//7]
        c.close(R['data'][i], s/float(len(k)), 1e-9, 'data')
        c.close(R['time'][i], float(d[k].mean()), 1e-9, 'time')
        c.same(int(R['month'][i]), int(np.floor(12*(d[k].mean() - 2002)) + 1), 'month')

@harness('C30', configs=[dict(order=o, gs=g, out=u, header=h) for o, (g, u), h in ((1, GS[0], 2), (2, GS[2], 0), (1, GS[3], 1), (2, ALL, 1))])
def cs2_csr(c, order, gs, out, header):
    n = len(gs)
    v = dict(C2m=signed(c, 'c', n, 1e-6, 1e-10), S2m=signed(c, 's', n, 1e-6, 1e-10), eC2m=c.reals('ec', n, 1e-12, 1e-9), eS2m=c.reals('es', n, 1e-12, 1e-9))
    a, b = signed(c, 'a', n), signed(c, 'b', n)
    t = [c.real(f't{i}', middle(g) - 0.03, middle(g) + 0.03) for i, g in enumerate(gs)]
    f = path(c, f'C2{order}_S2{order}_RL06.txt')
    with f.open('w') as o:
        o.write('# 1.0 2.0\n'*header)
        for i in range(n):
            o.write(f'{t[i]:10.4f} {v["C2m"][i]:22.14E} {v["S2m"][i]:22.14E} {v["eC2m"][i]*1e10:14.10f} {v["eS2m"][i]*1e10:14.10f} {a[i]:12.8f} {b[i]:12.8f} 53000.0 53030.0\n')
    R = reader(c, 'CS2')(f)
    v['C2m'], v['S2m'] = v['C2m'] - a*1e-10, v['S2m'] - b*1e-10
    check(c, R, ('C2m', 'S2m', 'eC2m', 'eS2m'), v, t, out or gs, 3e-4)

@harness('C30', configs=[dict(gs=g, out=o, header=h) for g, o, h in ((*GS[0], True), (*GS[1], False), (*ALL, True))])
def cs2_gravis(c, gs, out, header):
    n = len(gs)
    v = dict(C2m=signed(c, 'c', n, 1e-6, 1e-10), S2m=signed(c, 's', n, 1e-6, 1e-10), eC2m=c.reals('ec', n, 1e-12, 1e-9), eS2m=c.reals('es', n, 1e-12, 1e-9))
    x = c.reals('x', (n, 6), 0.1, 9)
    y = [c.real(f'y{i}', year(begin(g)) - 0.03, year(begin(g)) + 0.03) for i, g in enumerate(gs)]
    f = path(c, 'GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0002.dat')
    with f.open('w') as o:
        o.write('x\nPRODUCT:\n' if header else '')
        for i, g in enumerate(gs):
            o.write(f'{begin(g):8.1f} {y[i]:10.5f} ' + ' '.join(f'{z:12.6f}' for z in x[i]) + f' {v["C2m"][i]:22.14E} 1.0 {v["eC2m"][i]*1e10:14.10f} {v["S2m"][i]:22.14E} -2.0 {v["eS2m"][i]*1e10:14.10f}\n')
    R = reader(c, 'CS2')(f, HEADER=header)
    check(c, R, ('C2m', 'S2m', 'eC2m', 'eS2m'), v, y, out or gs)

@harness('C30', configs=[dict(n=9), dict(n=300)])
def cs2_weekly(c, n):
    t = weeks(n)
    C, S = signed(c, 'c', n, 1e-6, 1e-10), signed(c, 's', n, 1e-6, 1e-10)
    f = path(c, 'GSFC_C21_S21.txt')
    with f.open('w') as o:
        for i in range(n):
            o.write(f'{t[i]:12.5f} {C[i]:22.14E} {S[i]:22.14E}\n')
    D = c.arr([t[3] + 0.2/365.25, t[5] - 1.3/365.25])
    R = reader(c, 'CS2')(f, DATE=D)
    for k, v in (('C2m', C), ('S2m', S)):
        T, e = monthly(c, np.array(t), list(v), [float(x) for x in D])
        c.close(c.array(R[k])*1e6, e*1e6, 1e-9, k)
        c.close(R['e'+k], c.zeros(2), 0, 'error')
    c.close(R['time'], c.arr(T), 3e-4, 'time')

doc('C30', 'every coefficient, uncertainty and anomaly of files with up to 5 months or 9 weeks of each format (months of the whole record and up to 400 weeks where a file holds single coefficients), decimal years anywhere within listed months (including the months with accelerometer shutdowns)')
