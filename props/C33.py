"""C33 months of fields with replacements and corrections"""
import gzip, datetime, pathlib
import numpy as np
from symx.harness import harness, doc
from props.hutil import *
from props.C22 import path, signed, middle
from props.C29 import YAML, PLAIN, GFC, decimal, pole
from props.C30 import begin, year, csr_file, gsfc_file, monthly
from props.C26 import design

KEYS = ('clm', 'slm', 'eclm', 'eslm')
NAME = {('CSR', 'RL06'): '{d}-2_{s}_GRAC_UTCSR_BA01_0600', ('CSR', 'RL05'): '{d}-2_{s}_0021_UTCSR_0096_0005', ('CSR', 'RL04'): '{d}-2_{s}_0021_UTCSR_0060_0004', ('GFZ', 'RL06'): '{d}-2_{s}_GRAC_GFZOP_BB01_0600.gz', ('GFZ', 'RL05'): '{d}-2_{s}_0027_EIGEN_G---_005a', ('JPL', 'RL06'): '{d}-2_{s}_GRFO_JPLEM_BB01_0601'}

def pick(c, name, lo=1e-13, hi=1e-6, odd=False):
    return c.real(name, -hi, -lo) if odd else c.real(name, lo, hi)

def product(c, proc, rel, dset, gs, LF, value=None):
    """index and fields of months; coefficients, dates and names"""
    v, t, names = {}, [], []
    for i, g in enumerate(gs):
        y, m = 2002 + (g-1)//12, (g-1) % 12 + 1
        d0 = datetime.date(y, m, 1).timetuple().tm_yday
        d1 = (datetime.date(y + m//12, m % 12 + 1, 1) - datetime.date(y, 1, 1)).days
        fn = NAME[proc, rel].format(d=dset, s=f'{y}{d0:03d}-{y}{d1:03d}')
        t.append(decimal(y, d0, y, d1))
        text = (YAML if rel == 'RL06' else PLAIN).strip().split('\n')
        for l in range(LF+1):
            for o in range(l+1):
                for k in KEYS:
                    v[k, l, o, i] = 0.0 if (o == 0 and 's' in k) else value(k, l, o, i) if value else pick(c, f'{k}{l},{o},{i}', odd=(l + o + len(k)) % 2 and k[0] != 'e')
                text.append(f'GRCOF2 {l:4d} {o:4d} ' + ' '.join(f'{v[k,l,o,i]:22.14E}' for k in KEYS) + f' {20020401.0:13.4f} {20020501.0:13.4f} nnnn')
        data = ('\n'.join(text) + '\n').encode('utf8')
        f = path(c, proc, rel, dset, fn)
        f.write_bytes(gzip.compress(data) if fn.endswith('.gz') else data)
        names.append(fn)
    path(c, proc, rel, dset, 'index.txt').write_text('\n'.join(names[::-1]) + '\n')
    return v, t, names

def expected(c, v, L, M, gs, use):
    e = {k: c.zeros((L+1, M+1, len(use))) for k in KEYS}
    for j, g in enumerate(use):
        for (k, l, m, i), x in v.items():
            if i == gs.index(g) and l <= L and m <= M:
                e[k][l, m, j] = x
        if ('clm', 0, 0, 0) not in v:
            e['clm'][0, 0, j] = 1.0
    return e

def compare(c, R, e, t, use, gs, names, title, d):
    for k in KEYS:
        c.close(c.array(R[k])*1e6, e[k]*1e6, 1e-9, k)
    c.close(R['time'], c.arr([t[gs.index(g)] for g in use]), 1e-9, 'time')
    c.same([int(x) for x in R['month']], list(use), 'months')
    L, M = e['clm'].shape[0] - 1, e['clm'].shape[1] - 1
    c.same((list(R['l']), list(R['m'])), (list(range(L+1)), list(range(M+1))), 'degrees and orders')
    c.same(R['title'], title, 'title')
    c.same(pathlib.Path(R['directory']), d, 'directory')
    c.same(R['attributes']['lineage'][:len(use)], [pathlib.Path(names[gs.index(g)]).stem for g in use], 'files')

def load(c, proc, rel, dset, L, use, missing, c20, deg1, as_str=False, **kw):
    base = pathlib.Path(c.tmpdir())
    return c.gt.grace_input_months(str(base) if as_str else base, proc, rel, dset, L, use[0], use[-1], missing, c20, deg1, **kw)

@harness('C33', configs=[dict(proc=p, rel=r, dset=d, gs=g, use=u, LF=lf, L=L, M=M, pt=pt) for p, r, d, g, u, lf, L, M, pt in (
    ('CSR', 'RL06', 'GSM', [4, 5, 8, 9], [5, 8], 4, 4, None, False), ('GFZ', 'RL06', 'GAD', [10, 11, 12, 13], [10, 12, 13], 4, 3, 2, True), ('JPL', 'RL06', 'GSM', [198, 199, 202], [198, 202], 3, 4, None, True), ('CSR', 'RL05', 'GAC', [24, 25], [24, 25], 3, 3, 3, False), ('CSR', 'RL06', 'GSM', LONG, LONG[3:-1], 24, 24, None, False), ('GFZ', 'RL06', 'GSM', LONG, LONG, 40, 36, 20, True))])
def fields(c, proc, rel, dset, gs, use, LF, L, M, pt):
    v, t, names = product(c, proc, rel, dset, gs, LF, many(c) if LF > 10 else None)
    R = load(c, proc, rel, dset, L, use, [g for g in range(1, 300) if g not in use], None, None, as_str=M is not None, **({} if M is None else dict(MMAX=M)), **(dict(POLE_TIDE=True) if pt else {}))
    e = expected(c, v, L, L if M is None else M, gs, use)
    if pt and dset == 'GSM':
        for j, g in enumerate(use):
            x, y = pole({'CSR': 'UTCSR', 'JPL': 'JPLEM', 'GFZ': 'GFZOP'}[proc], t[gs.index(g)])
            e['clm'][2, 1, j] = e['clm'][2, 1, j] - x
            e['slm'][2, 1, j] = e['slm'][2, 1, j] - y
    compare(c, R, e, t, use, gs, names, '_wPT' if pt else '', pathlib.Path(c.tmpdir())/proc/rel/dset)

def slr_file(c, which, center, rel, gs, t, tag):
    """file of replacements; values and errors for each of its months (dict of lists), by key"""
    n = len(gs or ())
    if which == '20':
        v = dict(data=signed(c, tag + 'c', n, 1e-3, 1e-5), error=c.reals(tag + 'e', n, 1e-13, 1e-9))
        f = path(c, {'CSR': {'RL04': 'TN-05_C20_SLR.txt', 'RL05': 'TN-07_C20_SLR.txt', 'RL06': 'C20_RL06.txt'}[rel], 'GFZ': f'GFZ_{rel}_C20_SLR.dat', 'GSFC': 'TN-14_C30_C20_GSFC_SLR.txt'}[center])
        with f.open('w') as o:
            o.write('Product: \n' if center == 'GSFC' else '# 1.0 2.0\n' if f.name == 'C20_RL06.txt' else 'PRODUCT:\n')
            for i, g in enumerate(gs):
                if f.name == 'C20_RL06.txt':
                    o.write(f'{middle(g):10.4f} {v["data"][i]:22.14E} 1.5 {v["error"][i]*1e10:14.10f} {0.0:12.8f} 53000.0 53030.0\n')
                else:
                    o.write(f'{begin(g):8.1f} {year(begin(g)):10.5f} {v["data"][i]:22.14E} {1.0:9.4f} {v["error"][i]*1e10:14.10f}{" Gm" if center == "GFZ" else ""}\n')
    elif which in ('21', '22') and center in ('CSR', 'GFZ'):
        v = dict(C2m=signed(c, tag + 'c', n, 1e-6, 1e-10), S2m=signed(c, tag + 's', n, 1e-6, 1e-10), eC2m=c.reals(tag + 'ec', n, 1e-12, 1e-9), eS2m=c.reals(tag + 'es', n, 1e-12, 1e-9))
        f = path(c, f'C{which}_S{which}_{rel}.txt' if center == 'CSR' else 'GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0003.dat')
        with f.open('w') as o:
            o.write('# 1.0\n' if center == 'CSR' else 'PRODUCT:\n')
            for i, g in enumerate(gs):
                if center == 'CSR':
                    o.write(f'{middle(g):10.4f} {v["C2m"][i]:22.14E} {v["S2m"][i]:22.14E} {v["eC2m"][i]*1e10:14.10f} {v["eS2m"][i]*1e10:14.10f} {0.0:12.8f} {0.0:12.8f} 53000.0 53030.0\n')
                else:
                    o.write(f'{begin(g):8.1f} {year(begin(g)):10.5f} ' + ' '.join(f'{z:8.4f}' for z in (1.0, 2.0, 3.0, 4.0, 5.0, 6.0)) + f' {v["C2m"][i]:22.14E} 1.0 {v["eC2m"][i]*1e10:14.10f} {v["S2m"][i]:22.14E} -2.0 {v["eS2m"][i]*1e10:14.10f}\n')
    elif center == 'CSR':
        f, e, T, mid = csr_file(c, gs)
        l = int(which[0])
        v = dict(data=e['clm'][l, 0], error2=e['eclm'][l, 0])
    elif center == 'LARES':
        v = dict(data=signed(c, tag + 'c', n, 9, 1))
        f = path(c, f'C{which}_LARES_filtered.txt')
        with f.open('w') as o:
            o.write('year value 1.0\n')
            for i, g in enumerate(gs):
                o.write(f'{middle(g):12.7f} {v["data"][i]:14.10f}\n')
        v = dict(data=v['data']*1e-10 + {'30': 9.5717395773300e-07, '40': 0.0, '50': 0.0}[which], error=c.zeros(n))
    elif which == '30':
        v = dict(data=signed(c, tag + 'c', n, 1e-3, 1e-5), error=c.reals(tag + 'e', n, 1e-13, 1e-9))
        f = path(c, 'TN-14_C30_C20_GSFC_SLR.txt' if center == 'GSFC' else 'GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0003.dat')
        with f.open('w') as o:
            o.write('Product:\n' if center == 'GSFC' else 'PRODUCT:\n')
            for i, g in enumerate(gs):
                o.write(f'{begin(g):8.1f} {year(begin(g)):10.5f} 1.0 2.0 3.0 {v["data"][i]:22.14E} 4.0 {v["error"][i]*1e10:14.10f} 5.0 6.0 7.0 8.0 9.0 10.0\n')
    else:
        f, w, T = gsfc_file(c, 13, 2016.69)
        l, m = int(which[0]), int(which[1])
        v = {}
        for k, o in (('clm', 'C2m' if m else 'data'), ('slm', 'S2m')):
            v[o] = monthly(c, np.array(T), [w[k, l, m, i] for i in range(13)], t)[1]
            v['e' + o] = c.zeros(len(t))
        v['error'] = v['edata'] if 'edata' in v else None
    return v, f

@harness('C33', configs=[dict(center=s, proc=p, rel=r, gs=g, slr=w) for s, p, r, g, w in (('CSR', 'CSR', 'RL04', [25, 26], [24, 25, 26, 27]), ('CSR', 'CSR', 'RL05', [10, 12], [10, 11, 12]), ('CSR', 'CSR', 'RL06', [4, 5, 178], [4, 5, 6, 178]), ('CSR', 'CSR', 'RL06', [4], [4]), ('GFZ', 'GFZ', 'RL06', [4, 6], [4, 5, 6]), ('GSFC', 'JPL', 'RL06', [198, 200], [196, 198, 199, 200]), ('GSFC', 'CSR', 'RL06', [4], [4]))])
def c20(c, center, proc, rel, gs, slr):
    L = 3
    v, t, names = product(c, proc, rel, 'GSM', gs, L)
    w, f = slr_file(c, '20', center, rel, slr, t, 'r')
    R = load(c, proc, rel, 'GSM', L, gs, [g for g in range(gs[0], gs[-1]) if g not in gs], center, None)
    e = expected(c, v, L, L, gs, gs)
    for j, g in enumerate(gs):
        e['clm'][2, 0, j] = w['data'][slr.index(g)]
        e['eclm'][2, 0, j] = w['error'][slr.index(g)]
    compare(c, R, e, t, gs, gs, names, f'_w{center}_C20', pathlib.Path(c.tmpdir())/proc/rel/'GSM')
    c.same(R['attributes']['SLR C20'], (center, f.name), 'source')

@harness('C33', configs=[dict(which=w, center=s, proc=p, gs=g, slr=x) for w, s, p, g, x in (('21', 'CSR', 'CSR', [175, 178, 180], [175, 178, 179, 180]), ('21', 'GFZ', 'GFZ', [178, 180], [178, 180]), ('21', 'GSFC', 'CSR', [178, 179], None), ('22', 'CSR', 'JPL', [176, 177], [176, 177]), ('22', 'CSR', 'JPL', [177], [177]), ('30', 'LARES', 'CSR', [178], [178]), ('22', 'GSFC', 'CSR', [178], None),
    ('30', 'CSR', 'CSR', [174, 178], [174, 178]), ('30', 'LARES', 'CSR', [176, 199], [198, 199]), ('30', 'GFZ', 'GFZ', [177], [177, 178]), ('30', 'GSFC', 'CSR', [170, 199, 201], [170, 199, 200, 201]), ('40', 'CSR', 'CSR', [178], [177, 178]), ('40', 'LARES', 'CSR', [4, 178], [178]), ('40', 'GSFC', 'CSR', [178, 179], None), ('50', 'CSR', 'CSR', [178], [178]), ('50', 'LARES', 'CSR', [175, 177], [175, 177]), ('50', 'GSFC', 'CSR', [178], None), ('21', 'CSR', 'CSR', [4, 5], [5, 6]))])
def low(c, which, center, proc, gs, slr):
    """replacements of months with a single accelerometer"""
    l, m = int(which[0]), int(which[1])
    L = max(l, 2)
    v, t, names = product(c, proc, 'RL06', 'GSM', gs, L)
    w, f = slr_file(c, which, center, 'RL06', slr, t, 'r')
    slr = slr or gs
    key = f'SLR_{which}' if m else f'SLR_C{which}'
    R = load(c, proc, 'RL06', 'GSM', L, gs, [g for g in range(gs[0], gs[-1]) if g not in gs], None, None, **{key: center})
    e = expected(c, v, L, L, gs, gs)
    for j, g in enumerate(gs):
        if g > 176:
            i = slr.index(g)
            if m:
                for k, o in zip(KEYS, ('C2m', 'S2m', 'eC2m', 'eS2m')):
                    e[k][2, m, j] = w[o][i]
            else:
                e['clm'][l, 0, j] = w['data'][i]
                if 'error2' in w:
                    c.close((R['eclm'][l, 0, j]*1e6)**2, w['error2'][i], 1e-8, 'error of the replacement')
                    e['eclm'][l, 0, j] = R['eclm'][l, 0, j]
                else:
                    e['eclm'][l, 0, j] = w['error'][i]
    compare(c, R, e, t, gs, gs, names, f'_w{center}_' + ('' if m else 'C') + which, pathlib.Path(c.tmpdir())/proc/'RL06'/'GSM')
    s = {'LARES': 'CSR LARES', 'GFZ': 'GFZ GravIS'}.get(center, center)
    c.same(R['attributes']['SLR ' + ('' if m else 'C') + which], (s, f.name), 'source')

DEG = ('C10', 'C11', 'S11')

def geocenter_file(c, kind, proc, rel, gs, own):
    n = len(gs)
    s = {'Swenson': (10, 1e-3), 'SLR': (10, 1e-2)}.get(kind, (1e-9, 1e-12))
    v = {k: signed(c, k, n, *s) for k in DEG}
    name = {'Tellus': f'deg1_coef_{rel}.txt' if rel < 'RL06' else f'TN-13_GEOC_{proc}_{rel}.txt', 'SLR': 'gct2est.220_5s', 'UCI': f'{proc}_{rel}_MPIOM_SLF_iter.txt', 'SLF': f'{proc}_{rel}_MPIOM_SLF_iter.txt', 'Swenson': f'gad_gsm.{rel}.txt', 'GFZ': 'GRAVIS-2B_GFZOP_GEOCENTER_0003.dat'}[kind]
    f = path(c, 'other', 'mine.txt') if own else path(c, 'geocenter', name)
    t = [middle(g) for g in gs]
    with f.open('w') as o:
        if kind == 'Tellus':
            o.write('header\n' + ('end of header ====\n' if rel == 'RL06' else "'(a6,i3)'\n"))
        elif kind == 'SLR':
            o.write('header line 1.0\n'*15)
        elif kind == 'GFZ':
            o.write('PRODUCT: data\n')
        elif kind in ('UCI', 'SLF'):
            o.write('header:\n  variables:\n    mid-epoch_time:\n      comment: 1st column\n    C10:\n      comment: 2nd column\n    C11:\n      comment: 3rd column\n    S11:\n      comment: 4th column\n    month:\n      comment: 5th column\n# End of YAML header\n')
        elif kind == 'Swenson':
            o.write(' degree one in mm w.e. 1.0\n Time C10 C11 S11\n')
        for i, g in enumerate(gs):
            y, m = 2002 + (g-1)//12, (g-1) % 12 + 1
            x = [v[k][i] for k in DEG]
            if kind == 'Tellus':
                tail = f' {y:4d}{m:02d}02.0000 {y:4d}{m:02d}25.0000' if rel == 'RL06' else ''
                key = '2' if rel == 'RL06' else f'{y:4d}{m:02d}'
                o.write(f'{key} 1 0 {x[0]:20.12E} {0.0:20.12E} {1e-11:20.12E} {0.0:20.12E}{tail}\n{key} 1 1 {x[1]:20.12E} {x[2]:20.12E} {1e-11:20.12E} {1e-11:20.12E}{tail}\n')
            elif kind == 'SLR':
                o.write(f'{begin(g):9.1f} {t[i]:12.6f} ' + ' '.join(f'{q:12.6f}' for q in (x[1], x[2], x[0])) + ' 1.0 2.0 3.0 0.1 0.2 0.3 0.4 0.5 0.6\n')
                path(c, 'AOD1B', rel, 'geocenter', f'AOD1B_{rel} glo_{y:4d}_{m:02d}.txt').write_text('# Geocenter time series\n' + f'{y:4d}-{m:02d}-01T06:00:00 {0.5:12.6f} {-0.25:12.6f} {0.75:12.6f}\n')
            elif kind == 'GFZ':
                o.write(f'{begin(g):8.1f} {year(begin(g)):10.5f}' + ''.join(f' {q:20.12E} 1.0 0.1' for q in x) + '\n')
            elif kind in ('UCI', 'SLF'):
                o.write(f'{t[i]:12.6f} ' + ' '.join(f'{q:18.10E}' for q in x) + f' {g:03d}\n')
            else:
                o.write(f'{t[i]:12.6f} ' + ' '.join(f'{q:12.8f}' for q in x) + f' {g:d}\n')
    if kind == 'Swenson':
        v = {k: v[k]/(5.517*6.371e8*10) for k in DEG}
    elif kind == 'SLR':
        v = {k: (v[k] - q)/(6.378136e9*np.sqrt(3.0)) for k, q in zip(DEG, (0.75, 0.5, -0.25))}
    if kind == 'GFZ':
        t = [year(begin(g)) for g in gs]
    return v, t, f

@harness('C33', configs=[dict(kind=k, proc=p, rel=r, gs=g, deg=d, own=o) for k, p, r, g, d, o in (('Tellus', 'CSR', 'RL05', [4, 6], [4, 5, 6], None), ('Tellus', 'GFZ', 'RL06', [10], [10, 11], None), ('SLR', 'CSR', 'RL06', [4, 5], [4, 5], None), ('UCI', 'JPL', 'RL06', [198, 199], [198, 199, 200], None), ('SLF', 'CSR', 'RL06', [4, 8], [4, 8], 'str'), ('Swenson', 'CSR', 'RL05', [5, 6], [4, 5, 6], None), ('GFZ', 'GFZ', 'RL06', [14, 16], [13, 14, 16], 'path'), ('Tellus', 'CSR', 'RL06', [4, 5], [4, 5], 'str'), ('Swenson', 'CSR', 'RL05', [5, 6], [5, 6], 'str'))])
def geocenter(c, kind, proc, rel, gs, deg, own):
    L = 2
    v, t, names = product(c, proc, rel, 'GSM', gs, L)
    w, T, f = geocenter_file(c, kind, proc, rel, deg, own)
    R = load(c, proc, rel, 'GSM', L, gs, [g for g in range(gs[0], gs[-1]) if g not in gs], None, kind, **({} if own is None else dict(DEG1_FILE=str(f) if own == 'str' else f)))
    e = expected(c, v, L, L, gs, gs)
    for j, g in enumerate(gs):
        for k, (q, l, m) in zip(DEG, (('clm', 1, 0), ('clm', 1, 1), ('slm', 1, 1))):
            e[q][l, m, j] = w[k][deg.index(g)]
    compare(c, R, e, t, gs, gs, names, f'_w{kind}_DEG1', pathlib.Path(c.tmpdir())/proc/rel/'GSM')
    c.same(R['attributes']['geocenter'][1], f.name, 'source')

@harness('C33', configs=[dict(kind=k, gs=g, deg=d) for k, g, d in (('UCI', [14, 17, 19], [4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 18, 20]), ('Swenson', [6, 30], [5, 6, 8, 10, 11, 13, 14, 16, 19, 22, 24]))])
def modelled(c, kind, gs, deg):
    """months without degree one from a regression"""
    L = 2
    v, t, names = product(c, 'CSR', 'RL05', 'GSM', gs, L)
    w, T, f = geocenter_file(c, kind, 'CSR', 'RL05', deg, None)
    R = load(c, 'CSR', 'RL05', 'GSM', L, gs, [g for g in range(gs[0], gs[-1]) if g not in gs], None, kind, MODEL_DEG1=True)
    e = expected(c, v, L, L, gs, gs)
    def rows(t):
        return np.array([[1.0, x - 2003.3, (x - 2003.3)**2] + [q for p in (0.5, 1.0) for q in (np.sin(2*np.pi*x/p), np.cos(2*np.pi*x/p))] for x in t])
    P = rows(t) @ np.linalg.pinv(rows([float(f'{x:.6f}') for x in T]))
    for k, (q, l, m) in zip(DEG, (('clm', 1, 0), ('clm', 1, 1), ('slm', 1, 1))):
        for j, g in enumerate(gs):
            x = 0.0
            for i in range(len(deg)):
                x = x + P[j, i]*w[k][i]
            e[q][l, m, j] = w[k][deg.index(g)] if g in deg else x
    compare(c, R, e, t, gs, gs, names, f'_w{kind}_DEG1', pathlib.Path(c.tmpdir())/'CSR'/'RL05'/'GSM')

@harness('C33', configs=[dict(what=w) for w in ('20', '21', '22', '30', '40', '50', 'deg1')])
def absent(c, what):
    """any set of months in the file of replacements: an error names those needed and missing"""
    gs = [175, 178, 180]
    L = 5
    product(c, 'CSR', 'RL06', 'GSM', gs, 0)
    have = [g for g in gs if c.pick(c.bool(f'have{g}'))]
    slr = sorted(have + [182, 183])
    kw = {}
    if what == 'deg1':
        geocenter_file(c, 'UCI', 'CSR', 'RL06', slr, None)
    else:
        slr_file(c, what, {'20': 'GSFC', '21': 'CSR', '22': 'CSR', '30': 'GSFC', '40': 'LARES', '50': 'LARES'}[what], 'RL06', slr, None, 'r')
        if what != '20':
            kw = {('SLR_' if what[0] == '2' else 'SLR_C') + what: {'21': 'CSR', '22': 'CSR', '30': 'GSFC'}.get(what, 'LARES')}
    need = [g for g in gs if g not in have and (what in ('20', 'deg1') or g > 176)]
    try:
        load(c, 'CSR', 'RL06', 'GSM', L, gs, [176, 177, 179], 'GSFC' if what == '20' else None, 'UCI' if what == 'deg1' else None, **kw)
        c.same([], need, 'needed months')
    except IOError as err:
        c.same([int(x) for x in str(err).split('(')[1].rstrip(')').split(',')], need, 'needed months')

ATM = {'GAE': 'TN-08_GAE-2_2006032-2010031_0000_EIGEN_G---_0005.gz', 'GAF': 'TN-09_GAF-2_2010032-2015131_0000_EIGEN_G---_0005.gz', 'GAG': 'TN-10_GAG-2_2015132-2099001_0000_EIGEN_G---_0005.gz'}

def atm_files(c, LF):
    v = {}
    for q, fn in ATM.items():
        text = PLAIN.strip().split('\n')
        for l in range(LF+1):
            for m in range(l+1):
                for k in ('clm', 'slm'):
                    v[q, k, l, m] = 0.0 if m == 0 and k == 'slm' else pick(c, f'{q}{k}{l},{m}', odd=(l + m) % 2)
                text.append(f'GRCOF2 {l:4d} {m:4d} ' + ' '.join(f'{v[q,k,l,m]:22.14E}' for k in ('clm', 'slm')) + ' 0.0 0.0 20060201.0 20100131.0 yyyy')
        path(c, fn).write_bytes(gzip.compress(('\n'.join(text) + '\n').encode('utf8')))
    return v

def era(g):
    return None if g < 50 else 'GAE' if g <= 97 else 'GAF' if g <= 161 else 'GAG'

@harness('C33', configs=[dict(dset=d, gs=g, LF=lf, L=L, M=M) for d, g, lf, L, M in (('GSM', [49, 50, 97, 98], 3, 3, None), ('GAC', [161, 162], 3, 3, 2), ('GAA', [60, 100, 170], 2, 3, None), ('GAD', [60], 2, 2, None), ('GSM', [97, 161], 4, 3, 1), ('GSM', [4], 2, 2, None))], mix=16)
def jumps(c, dset, gs, LF, L, M):
    v, t, names = product(c, 'CSR', 'RL05', dset, gs, L)
    w = atm_files(c, LF)
    R = load(c, 'CSR', 'RL05', dset, L, gs, [g for g in range(gs[0], gs[-1]) if g not in gs], None, None, ATM=True, **({} if M is None else dict(MMAX=M)))
    M = L if M is None else M
    e = expected(c, v, L, M, gs, gs)
    s = {'GSM': -1.0, 'GAC': 1.0, 'GAA': 1.0, 'GAD': 0.0}[dset]
    for j, g in enumerate(gs):
        for (q, k, l, m), x in w.items():
            if q == era(g) and l <= L and m <= M:
                e[k][l, m, j] = e[k][l, m, j] + s*x
    compare(c, R, e, t, gs, gs, names, '_wATM', pathlib.Path(c.tmpdir())/'CSR'/'RL05'/dset)
    c.same(R['attributes']['lineage'][len(gs):], sorted(ATM.values()), 'files of the correction')

@harness('C33', configs=[dict(months=m, LF=3, L=L, M=M, as_str=s) for m, L, M, s in (([49, 97, 98, 162], 3, None, False), ([50, 161], 4, 2, True))], mix=10)
def ecmwf(c, months, LF, L, M, as_str):
    w = atm_files(c, LF)
    base = pathlib.Path(c.tmpdir())
    R = c.mod('grace_input_months').read_ecmwf_corrections(str(base) if as_str else base, L, months, MMAX=M)
    M = L if M is None else M
    for k in ('clm', 'slm'):
        e = c.zeros((L+1, M+1, len(months)))
        for j, g in enumerate(months):
            for (q, o, l, m), x in w.items():
                if q == era(g) and o == k and l <= L and m <= M:
                    e[l, m, j] = x
        c.close(c.array(R[k])*1e6, e*1e6, 1e-9, k)

@harness('C33', configs=[dict(n=n, order=o, cycles=y, rel=r) for n, o, y, r in ((6, 2, None, 0.0), (9, 1, [1.0], 2004.0), (12, 2, [0.5, 1.0], 0.0), (3, 0, [], 2003.0))], mix=16)
def extrapolate(c, n, order, cycles, rel):
    t = np.array([2003.05 + i/7.0 + 0.01*(i % 3) for i in range(n)])
    T = np.array([2002.9, 2003.4, 2007.0])
    d = c.reals('d', n, -5, 5)
    R = c.mod('grace_input_months').regress_model(c.arr(t), d, c.arr(T), ORDER=order, **({} if cycles is None else dict(CYCLES=cycles)), RELATIVE=rel)
    r = rel or t.mean()
    rows = lambda t: np.array([[(x - r)**k for k in range(order+1)] + [q for p in (cycles or []) for q in (np.sin(2*np.pi*x/p), np.cos(2*np.pi*x/p))] for x in t])
    P = rows(T) @ np.linalg.pinv(rows(t))
    for j in range(len(T)):
        x = 0.0
        for i in range(n):
            x = x + P[j, i]*d[i]
        c.close(R[j], x, 1e-6, 'model')

doc('C33', 'every coefficient, uncertainty and replacement of up to 4 months to degree 5 (patterns of 30 months to degree 40), all product kinds and sources, months on both sides of each change of correction, every subset of months missing from the replacements')
