"""C32 indices of files and months"""
import datetime, pathlib
import numpy as np
from symx.harness import harness, doc
from props.hutil import *
from props.C22 import path

def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)

def span(c, i, y, a, b, lo, hi):
    """start day in [a, b] of year y and a number of days in [lo, hi]; dates of the file"""
    n = 366 if leap(y) else 365
    d0, k = c.int(f'start{i}', a, b), c.int(f'days{i}', lo, hi)
    c.assume(d0 <= n)
    d1 = d0 + k
    if c.pick(d1 > n):
        return (y, d0, y + 1, d1 - n), (2*d0 + k)*0.5
    return (y, d0, y, d1), (2*d0 + k)*0.5

def month_of(c, y, mid):
    """month number of a (half) day of year (not the first instant of a month, decided by the last bit)"""
    cum = 0
    for g in range(24):
        yy, m = y + g//12, g % 12 + 1
        cum += (datetime.date(yy + m//12, m % 12 + 1, 1) - datetime.date(yy, m, 1)).days
        c.assume(mid != cum + 1)
        if c.pick(mid < cum + 1):
            return 12*(y - 2002) + g + 1

def product(c, proc, rel, dset, names):
    d = path(c, proc, rel, dset, 'index.txt')
    d.write_text('\n'.join(names) + '\n')
    return pathlib.Path(c.tmpdir()), d.parent

PATTERN = {'CSR': '{d}-2_{s}_GRAC_UTCSR_BA01_0600', 'GFZ': '{d}-2_{s}_0027_EIGEN_G---_005a.gz', 'JPL': '{d}-2_{s}_GRFO_JPLEM_BB01_0601.gz', 'COSTG': '{d}-2_{s}_GRAC_COSTG_BF01_0100.gfc', 'CNES': '{d}-2_{s}_0031_GRGS_SH90_0005.txt'}

@harness('C32', exact=True, configs=[dict(proc=p, dset=d, y=y, a=a, b=b, lo=lo, hi=hi) for p, d, y, a, b, lo, hi in (('CSR', 'GSM', 2002, 1, 365, 9, 35), ('GFZ', 'GAC', 2004, 40, 366, 14, 31), ('JPL', 'GAD', 2019, 300, 365, 20, 45), ('COSTG', 'GSM', 2012, 1, 366, 27, 31), ('CNES', 'GAA', 2008, 330, 366, 28, 31), ('CSR', 'GSM', 2025, 1, 365, 20, 31), ('GFZ', 'GSM', 2023, 300, 365, 20, 31))], mix=16)
def any_span(c, proc, dset, y, a, b, lo, hi):
    """one file with any start and end"""
    (y0, d0, y1, d1), mid = span(c, 0, y, a, b, lo, hi)
    fn = PATTERN[proc].format(d=dset, s=f'{c.digits(y0, 4)}{c.digits(d0, 3)}-{c.digits(y1, 4)}{c.digits(d1, 3)}')
    base, d = product(c, proc, 'RL06', dset, [fn])
    R = c.gt.grace_date(base, PROC=proc, DREL='RL06', DSET=dset, OUTPUT=True)
    g = month_of(c, y, mid)
    (k, f), = R.items()
    c.close(k, g, 0, 'month')
    c.same((f.name, f.parent), (fn, d), 'file')
    t = c.np.loadtxt(d/f'{proc}_RL06_DATES.txt', skiprows=1, ndmin=2)
    n = 366.0 if leap(y) else 365.0
    c.close(t[0, 0], y + mid/n, 1e-6, 'date')
    c.close(t[0, 1], g, 0, 'month in the list of dates')
    for q, x in enumerate((y0, d0, y1, d1)):
        c.close(t[0, 2+q], x, 0, 'start and end')
    since = (datetime.date(y, 1, 1) - datetime.date(2002, 1, 1)).days
    c.close(t[0, 6], since + mid, 0.6, 'days since 2002')

@harness('C32', configs=[dict(kind=k) for k in range(4)])
def series(c, kind):
    """every set of months in files listed in any order"""
    proc, rel, dset = (('CSR', 'RL06', 'GSM'), ('GFZ', 'RL05', 'GAC'), ('JPL', 'RL06', 'GSM'), ('COSTG', 'RL01', 'GSM'))[kind]
    first, n = ((4, 7), (10, 6), (113, 6), (198, 7))[kind]
    use = [i for i in range(n) if c.pick(c.bool(f'use{i}'))]
    c.assume(len(use) >= 1)
    if kind % 2:
        use = use[::-1]
    names, gs, ds = [], [], []
    for i in use:
        g = first + i
        y, m = 2002 + (g-1)//12, (g-1) % 12 + 1
        d0 = datetime.date(y, m, 1).timetuple().tm_yday + i % 3
        d1 = d0 + 26
        names.append(PATTERN[proc].format(d=dset, s=f'{y}{d0:03d}-{y}{d1:03d}'))
        gs.append(g)
        ds.append((y, d0, y, d1))
    base, d = product(c, proc, rel, dset, names)
    R = c.gt.grace_date(base, PROC=proc, DREL=rel, DSET=dset, OUTPUT=False)
    c.same({int(k): str(v) for k, v in R.items()}, {g: str(d/f) for g, f in zip(gs, names)}, 'files of months')
    c.same((d/f'{proc}_{rel}_DATES.txt').exists(), False, 'no list of dates')
    F = c.gt.grace_find_months(base, proc, rel, DSET=dset)
    c.same([int(x) for x in c.array(F['months']).reshape(-1)], gs, 'months')
    c.same((int(F['start']), int(F['end'])), (min(gs), max(gs)), 'first and last month')
    c.same([int(x) for x in F['missing']], [g for g in range(4, max(gs)) if g not in gs], 'missing months')
    c.close(c.array(F['time']).reshape(-1), c.arr([y + 0.5*(a + b)/(366.0 if leap(y) else 365.0) for y, a, _, b in ds]), 3e-4, 'dates')
    if proc != 'COSTG' and dset == 'GSM':
        c.mod('grace_months_index').grace_months_index(base, DREL=[rel], MODE=0o664)
        lines = (base/'GRACE_months.txt').read_text().splitlines()
        c.same(lines[0].split(), ['MONTH', f'{proc}_{rel}'], 'header of months')
        e = []
        for g in range(4, max(gs) + 1):
            w = [f'{g:03d}', datetime.date(2002 + (g-1)//12, (g-1) % 12 + 1, 1).strftime('%b%Y')]
            if g in gs:
                y, a, _, b = ds[gs.index(g)]
                w.append(f'{y}_{a:03d}--{y}_{b:03d}')
            else:
                w += ['**', 'missing', '**']
            e.append(w)
        c.same([x.split() for x in lines[1:]], e, 'index of months')

@harness('C32', exact=True, configs=[dict(proc=p, order=o) for p, o in (('CSR', 1), ('GFZ', -1))])
def record(c, proc, order):
    """the months of both missions, with any days within every fifth"""
    names, ds, gs = [], [], [g for g in MISSION if g not in (119, 161)][::order]
    for i, g in enumerate(gs):
        y, m = 2002 + (g-1)//12, (g-1) % 12 + 1
        a = datetime.date(y, m, 1).timetuple().tm_yday
        d0 = c.int(f'a{i}', a, a + 4) if i % 5 == 0 or 22 <= g <= 29 else a + i % 4
        d1 = c.int(f'b{i}', a + 22, a + 27) if i % 5 in (0, 2) and i < 120 else a + 25
        names.append(PATTERN[proc].format(d='GSM', s=f'{y}{c.digits(d0, 3)}-{y}{c.digits(d1, 3)}'))
        ds.append((y, d0, y, d1))
    base, d = product(c, proc, 'RL06', 'GSM', names)
    R = c.gt.grace_date(base, PROC=proc, DREL='RL06', DSET='GSM', OUTPUT=True)
    c.same([(int(k), f.name) for k, f in R.items()], list(zip(gs, names)), 'files of months')
    t = c.np.loadtxt(d/f'{proc}_RL06_DATES.txt', skiprows=1, ndmin=2)
    e = c.zeros((len(gs), 7))
    for i, (g, (y, a, z, b)) in enumerate(zip(gs, ds)):
        since = (datetime.date(y, 1, 1) - datetime.date(2002, 1, 1)).days
        mid = (a + b)*0.5
        e[i] = [y + mid/(366.0 if leap(y) else 365.0), g, y, a, z, b, since + mid]
    c.close(t[:, 0], e[:, 0], 1e-6, 'dates')
    c.close(t[:, 1:6], e[:, 1:6], 0, 'months, start and end')
    for i in range(len(gs)):
        c.close(t[i, 6], e[i, 6], 0.6, f'days since 2002 {i}')
    F = c.gt.grace_find_months(base, proc, 'RL06')
    c.same([int(x) for x in c.array(F['months']).reshape(-1)], gs, 'months')
    c.same([int(x) for x in F['missing']], [g for g in range(4, 250) if g not in gs], 'missing months')

@harness('C32', configs=[dict(center=k) for k in range(3)])
def shutdown(c, center):
    """months with accelerometer shutdowns"""
    c.real('unused')
    proc, files = (('CSR', {'2011244-2011273': 117, '2011274-2011304': 118, '2011289-2011320': 119, '2011339-2012007': 120, '2012003-2012031': 121, '2012080-2012108': 124, '2012110-2012140': 125, '2015060-2015090': 159, '2015091-2015120': 160, '2015102-2015132': 161}),
        ('JPL', {'2011213-2011243': 116, '2011274-2011304': 118, '2011305-2011334': 119, '2011357-2012017': 120, '2012002-2012031': 121, '2012032-2012060': 122}),
        ('GFZ', {'2018152-2018181': 198, '2018182-2018193': 199, '2018295-2018313': 202, '2018305-2018334': 203, '2018335-2018365': 204}))[center]
    names = [PATTERN[proc].format(d='GSM', s=s) for s in files]
    base, d = product(c, proc, 'RL06', 'GSM', names)
    R = c.gt.grace_date(base, PROC=proc, DREL='RL06', DSET='GSM', OUTPUT=False)
    c.same([(int(k), files.get(v.name.split('_')[1])) for k, v in R.items()], [(g, g) for g in files.values()], 'files of months')

GFC = {('GRAZ', 'GSM'): 'ITSG-Grace2018_n120_{y}-{m:02d}.gfc', ('GRAZ', 'GAC'): 'model_dealiasing_n180_{y}-{m:02d}.gfc', ('GRAZ', 'GAD'): 'model_oceanBottomPressure_{y}-{m:02d}.gfc',
    ('Swarm', 'GSM'): 'SW_OPER_EGF_SHA_2__{y}{m:02d}01T000000_{y}{m:02d}{d:02d}T235959_0101.ZIP', ('Swarm', 'GAB'): 'GAB_Swarm_0103_{m:02d}_{y}.gfc'}

@harness('C32', exact=True, configs=[dict(proc=p, dset=d, ms=m) for p, d, m in (('GRAZ', 'GSM', (1, 2, 12)), ('GRAZ', 'GAC', (3, 10)), ('GRAZ', 'GAD', (2,)), ('Swarm', 'GSM', (4, 1, 6)), ('Swarm', 'GAB', (2, 5)))])
def gfc(c, proc, dset, ms):
    """calendar months of GRAZ and Swarm files of any year"""
    names, e = [], []
    y = c.int('year', 2002 if proc == 'GRAZ' else 2013, 2023)
    if dset == 'GSM' and proc == 'Swarm':
        y = next(v for v in range(2013, 2024) if v == 2023 or c.pick(y == v))
    isleap = c.pick((y % 4 == 0))
    for m in ms:
        d = [31, 29 if isleap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
        names.append(GFC[proc, dset].format(y=y if isinstance(y, int) else c.digits(y, 4), m=m, d=d[m-1]))
        e.append((12*(y - 2002) + m, sum(d[:m-1]) + 1, sum(d[:m]) + 1, sum(d)))
    base, f = product(c, proc, 'RL06', dset, names)
    R = c.gt.grace_date(base, PROC=proc, DREL='RL06', DSET=dset, OUTPUT=True)
    t = c.np.loadtxt(f/f'{proc}_RL06_DATES.txt', skiprows=1, ndmin=2)
    for (k, v), x, (g, a, b, n), w in zip(R.items(), names, e, t):
        c.same(v.name, x, 'file')
        c.close(k, g, 0, 'month')
        c.close(w[0], y + (a + b)/(2.0*n), 1e-6, 'date')
        c.close(w[1], g, 0, 'month in the list of dates')
        c.close(w[2], y, 0, 'year')
        c.close(w[3], a, 0, 'start')

@harness('C32', configs=[dict(n=n) for n in (3,)])
def versions(c, n):
    """the newest version of each span of dates"""
    spans = ['2002095-2002120', '2002123-2002137', '2002213-2002243']
    files = []
    for s in spans[::-1]:
        for v in ((3, 0, 10, 2), (2, 10, 3), (10, 0))[spans.index(s)]:
            if c.pick(c.bool(f'{s}{v}')):
                files.append(f'GSM-2_{s}_GRAC_UTCSR_BA01_06{v:02d}' + ('.gz' if v == 3 else ''))
    R = c.mod('time').reduce_by_date(list(files))
    e = []
    for s in spans:
        k = [f for f in files if s in f]
        if k:
            e.append(max(k, key=lambda f: int(f.removesuffix('.gz')[-2:])))
    c.same(R, e, 'newest versions')

doc('C32', 'any start day and length of a file in listed years; every subset of up to 7 consecutive months (across years) in the index; every subset of versions of three spans; the months with accelerometer shutdowns')
