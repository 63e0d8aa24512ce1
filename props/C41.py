"""C41 programs for the files of atmospheric and oceanic dealiasing"""
import gzip, io, tarfile, datetime, os, math
import numpy as np
import scipy.special
from symx.harness import harness, doc
from props.hutil import *
from props.oracles import *
from props.C21 import R0
from props.C22 import path
from props.C34 import love, nodes, EXT, RAD, RHO

HEAD = 'PRODUCER AGENCY               :GFZ\nFILE FORMAT 0=ASCII 1=BINARY  :0\nNUMBER OF DATA SETS           : {n:02d}\nEND OF HEADER\n'
REL = {'RL05': (100, [0, 6, 12, 18]), 'RL06': (180, [0, 3, 6, 9, 12, 15, 18, 21]), 'RL04': (100, [0, 6, 12, 18])}
ZERO = {}

def zeros(L):
    if L not in ZERO:
        ZERO[L] = [f'{l:4d} {m:4d}  0.000000000E+00  0.000000000E+00' for l in range(L+1) for m in range(l+1)]
    return ZERO[L]

def day_text(rel, day, sets, other=7.7e-11):
    """sets: name -> {(hour, l, m): (C, S)}; all else 0, but for names with None"""
    L, hours = REL[rel]
    out, n = [HEAD.format(n=len(hours)*len(sets))], 0
    for h in hours:
        for name, v in sets.items():
            n += 1
            out.append(f'DATA SET {n:02d}:   {len(zeros(L))} COEFFICIENTS FOR {day:%Y-%m-%d} {h:02d}:00:00 OF TYPE {name}\n')
            rows = list(zeros(L))
            if v is None:
                v = {(h, l, m): (other, -other) for l in range(4) for m in range(l+1)}
            for (g, l, m), (x, y) in v.items():
                if g == h:
                    rows[l*(l+1)//2 + m] = f'{l:4d} {m:4d} {x:16.9E} {y:16.9E}'
            out.append('\n'.join(rows) + '\n')
    return ''.join(out).encode()

def write_tar(base, rel, year, mon, days, ext='tgz', zipped=False, mtime=0, extra=()):
    """days: date -> text"""
    d = base/'AOD1B'/rel
    d.mkdir(parents=True, exist_ok=True)
    f = d/f'AOD1B_{year:04d}-{mon:02d}_{rel[2:]}.{ext}'
    with tarfile.open(f, 'w:gz', compresslevel=1) as t:
        for day, text in list(days.items()):
            if zipped:
                text = gzip.compress(text, 1)
            i = tarfile.TarInfo(f'AOD1B_{day:%Y-%m-%d}_X_{rel[2:]}.asc{".gz" if zipped else ""}')
            i.size, i.mtime = len(text), mtime
            t.addfile(i, io.BytesIO(text))
    if mtime:
        os.utime(f, (mtime, mtime))
    return f

def value(c, name):
    """numbers whose text is exact"""
    return c.int(name, -999, 999)*1e-12

@harness('C41', configs=[dict(rel=r, dset=d, days=n, ext=e, zipped=z) for r, d, n, e, z in (('RL05', 'atm', 2, 'tgz', False), ('RL06', 'ocn', 1, 'tar.gz', True), ('RL04', 'oba', 1, 'tgz', True), ('RL05', 'glo', 1, 'tar.gz', False))] + [dict(rel='RL05', dset='ocn', days=31, ext='tgz', zipped=False, month=3)], mix=6, ok=lambda days, month=2, **k: days < 3)
def low(c, rel, dset, days, ext, zipped, month=2):
    """geocenter and oblateness of each hour"""
    base = path(c, 'aod')
    hours, other = REL[rel][1], 'glo' if dset != 'glo' else 'atm'
    D = [datetime.date(2005, month, (27 if month == 2 else 1) + i) for i in range(days)]
    v, texts = {}, {}
    for d in D:
        for h in hours:
            for l, m in ((1, 0), (1, 1), (2, 0)):
                v[d, h, l, m] = value(c, f'C{d.day},{h},{l},{m}'), value(c, f'S{d.day},{h},{l},{m}') if m else 0.0
        w = {(h, l, m): x for (e, h, l, m), x in v.items() if e == d}
        w.update({(h, 2, 1): (5e-10, 6e-10) for h in hours} | {(h, 0, 0): (3e-10, 0.0) for h in hours} | {(h, 3, 0): (9e-10, 0.0) for h in hours} | {(h, 10, 1): (4e-10, 2e-10) for h in hours} | {(h, 20, 0): (1e-10, 0.0) for h in hours})
        texts[d] = day_text(rel, d, {other: None, dset: w, 'zzz': None})
    write_tar(base, rel, 2005, month, texts, ext, zipped)
    # other files of the directory
    (base/'AOD1B'/rel/'AOD1B_2005-04_X.txt').write_text('')
    for prog, folder in (('aod1b_geocenter', 'geocenter'), ('aod1b_oblateness', 'oblateness')):
        P = c.script(prog)
        for rerun in (False, True):
            getattr(P, prog)(str(base), DREL=rel, DSET=dset)
            c.same([f.name for f in (base/'AOD1B'/rel/folder).iterdir()], [f'AOD1B_{rel}_{dset}_2005_{month:02d}.txt'], 'files')
            f = base/'AOD1B'/rel/folder/f'AOD1B_{rel}_{dset}_2005_{month:02d}.txt'
            rows = [x.split() for x in f.read_text().splitlines() if not x.startswith('#')]
            c.same([x[0] for x in rows], [f'{d:%Y-%m-%d}T{h:02d}:00:00' for d in D for h in hours], 'times')
            T = c.np.loadtxt(io.StringIO('\n'.join(' '.join(x[1:]) for x in rows)), ndmin=2)
            R = R0
            for i, (d, h) in enumerate((d, h) for d in D for h in hours):
                if folder == 'oblateness':
                    c.close(T[i, 0]*1e9, v[d, h, 2, 0][0]*1e9, 1e-8, 'C20')
                else:
                    e = [v[d, h, 1, 1][0], v[d, h, 1, 1][1], v[d, h, 1, 0][0]]
                    for k in range(3):
                        c.close(T[i, k], e[k]*(np.sqrt(3.0)*R), 6e-7, 'XYZ'[k])

def decimal(d, h):
    n = (datetime.date(d.year + 1, 1, 1) - datetime.date(d.year, 1, 1)).days
    return d.year + ((d - datetime.date(d.year, 1, 1)).days + h/24.0)/n

# product of the level-2 files
SETS = dict(GAA='atm', GAB='ocn', GAC='glo', GAD='oba')

#  spans of the months: (month, first date, number of days, days without data)
MM = [dict(proc=p, rel=r, dset=d, L=l, fmt=f, spans=s, ext=e, zipped=z) for p, r, d, l, f, s, e, z in (
    ('CSR', 'RL05', 'GAC', 3, 'ascii', ((36, (2004, 12, 31), 2, ()), (38, (2005, 2, 28), 2, ())), 'tgz', False), ('GFZ', 'RL05', 'GAA', 100, 'netCDF4', ((50, (2006, 1, 31), 2, ()),), 'tar.gz', True),
    ('JPL', 'RL06', 'GAD', 4, 'HDF5', ((190, (2017, 10, 5), 1, ()),), 'tgz', False), ('CSR', 'RL05', 'GAB', 5, 'SHM', ((74, (2008, 2, 29), 1, ()), (75, (2008, 3, 10), 2, (11,)), (76, (2008, 4, 10), 1, ())), 'tgz', True),
    ('JPL', 'RL05', 'GAD', 2, 'SHM', ((187, (2017, 7, 5), 2, ()),), 'tar.gz', False), ('GFZ', 'RL04', 'GAC', 2, 'SHM', ((186, (2017, 6, 12), 1, ()),), 'tgz', False), ('GRGS', 'RL06', 'GAC', 2, 'SHM', ((220, (2020, 4, 12), 1, ()),), 'tgz', False))]

@harness('C41', configs=MM)
def monthly(c, proc, rel, dset, L, fmt, spans, ext, zipped):
    """mean of the dealiasing of each month"""
    base = path(c, 'aod')
    hours, name = REL[rel][1], SETS[dset]
    gsm = base/proc/rel/'GSM'
    gsm.mkdir(parents=True)
    terms = [(0, 0), (1, 1), (2, 0), (2, 1), (L, 0), (L, L)] + ([(L+1, 1)] if L < REL[rel][0] else [(L, 7)])
    lines, tars, S = ['Mid-date Month Start_Day End_Day Total_Days'], {}, {}
    for g, d0, n, missing in spans:
        D = [datetime.date(*d0) + datetime.timedelta(i) for i in range(n)]
        S[g] = D
        a, b = D[0], D[-1]
        lines.append(f'{decimal(a, 12.0*n):13.8f} {g:03d} {a.year:8.0f} {a:%j} {b.year:8.0f} {b:%j} {n:8.0f}')
        # the neighbours of the days are not part of the month
        for d in [a - datetime.timedelta(1)] + D + [b + datetime.timedelta(1)]:
            if d.day in missing or (len(D) > 1 and d not in D and rel == 'RL06'):
                continue
            if d in D:
                w = {}
                for h in hours:
                    for l, m in dict.fromkeys(terms):
                        w[h, l, m] = value(c, f'C{d:%j},{h},{l},{m}'), value(c, f'S{d:%j},{h},{l},{m}') if m else 0.0
                tars.setdefault((d.year, d.month), {})[d] = w
            elif d not in tars.setdefault((d.year, d.month), {}):
                tars[d.year, d.month][d] = None
    other = 'glo' if name != 'glo' else 'oba'
    for (y, m), w in tars.items():
        write_tar(base, rel, y, m, {d: day_text(rel, d, {name: x} if rel == 'RL06' or x is None else {other: None, name: x}) for d, x in w.items()}, ext, zipped)
    (gsm/f'{proc}_{rel}_DATES.txt').write_text('\n'.join(lines) + '\n')
    P = c.script('dealiasing_monthly_mean')
    P.dealiasing_monthly_mean(str(base), PROC=proc, DREL=rel, DSET=dset, LMAX=L if L < 100 else None, DATAFORM=fmt)
    out = base/proc/rel/dset
    ok = [g for g, _, _, missing in spans if not missing]
    # the dates of complete months
    rows = (out/f'{proc}_{rel}_DATES.txt').read_text().splitlines()
    c.same([x.split() for x in rows[1:]], [x.split() for x, s in zip(lines[1:], spans) if s[0] in ok], 'dates')
    if fmt == 'SHM':
        center = dict(CSR='UTCSR', JPL='JPLEM').get(proc, 'GFZOP' if rel == 'RL06' else 'EIGEN')
        names = {g: f'{dset}-2_{S[g][0]:%Y%j}-{S[g][-1]:%Y%j}_{"GRAC" if g <= 186 else "GRFO"}_{center}_BC01_{rel[2:]}00.gz' for g in ok}
        c.same((out/'index.txt').read_text().split(), sorted(names.values()), 'index')
    else:
        names = {g: f'{proc}_{rel}_{dset}_CLM_L{L}_{g:03d}.{EXT[fmt]}' for g in ok}
    c.same(sorted(f.name for f in out.iterdir() if f.name != 'index.txt' and 'DATES' not in f.name), sorted(names.values()), 'files')
    for g in ok:
        e = {k: c.zeros((L+1, L+1)) for k in ('clm', 'slm')}
        n = len(S[g])*len(hours)
        for d in S[g]:
            for (h, l, m), (x, y) in tars[d.year, d.month][d].items():
                if l <= L:
                    e['clm'][l, m], e['slm'][l, m] = e['clm'][l, m] + x*(1.0/n), e['slm'][l, m] + y*(1.0/n)
        if fmt == 'SHM':
            R = c.gt.read_GRACE_harmonics(str(out/names[g]), L, MMAX=L, POLE_TIDE=False)
            got = R['clm'], R['slm']
            text = gzip.open(out/names[g], 'rt').read()
            head = dict(x.split(':', 1) for x in text.split('# End of YAML header')[0].splitlines() if ':' in x)
            head = {k.strip(): v.strip() for k, v in head.items()}
            c.same((head['degree'], head['order'], head['product_id'], head['time_coverage_start'], head['time_coverage_end'], head['source'], head['product_version']), (str(L), str(L), f'{dset}-2', f'{S[g][0]:%Y-%m-%d}', f'{S[g][-1]:%Y-%m-%d}', f'All data from AOD1B {rel}', f'Release-{rel[2:]}'), 'header')
            c.same(head['title'], f'{"GRACE" if g <= 186 else "GRACE-FO"} Geopotential {dset} Coefficients {proc} {rel}', 'title')
            row = text.split('# End of YAML header')[1].split('\n')[1].split()
            c.same((row[0], row[1], row[2], row[7], row[8]), ('GRCOF2', '0', '0', f'{S[g][0]:%Y%m%d}.0000', f'{S[g][-1]:%Y%m%d}.0000'), 'line')
        else:
            Y = getattr(c.gt.harmonics(), 'from_' + fmt)(out/names[g], date=True)
            got = Y.clm, Y.slm
            c.same(int(Y.month), g, 'month')
            c.close(Y.time, np.mean([decimal(d, h) for d in S[g] for h in hours]), 1e-4 if fmt == 'ascii' else 1e-9, 'time')
        c.close(got[0]*1e9, e['clm']*1e9, 1e-6, 'clm')
        c.close(got[1]*1e9, e['slm']*1e9, 1e-6, 'slm')

def plm(l, m, lat):
    """fully normalised function of one degree and order"""
    x = np.sin(np.radians(lat))
    return (-1)**m*np.sqrt((2.0 - (m == 0))*(2*l + 1)*math.exp(math.lgamma(l - m + 1) - math.lgamma(l + m + 1)))*scipy.special.lpmv(m, l, x)

UP = [dict(rel='RL05', dset='oba', years=None, lv=0, ref='CF', ddeg=[180.0, 90.0], interval=1, bounds=None, fmt='netCDF4'), dict(rel='RL04', dset='atm', years=[2006], lv=2, ref='CE', ddeg=[90.0], interval=2, bounds=None, fmt='HDF5'),
    dict(rel='RL05', dset='glo', years=[2005, 2006], lv=1, ref='CF', ddeg=[10.0], interval=3, bounds=[-20.0, 0.0, 40.0, 60.0], fmt='HDF5')]

@harness('C41', configs=UP, mix=4, ok=lambda interval, bounds, ddeg, **k: fits(ddeg, interval, bounds))
def uplift(c, rel, dset, years, lv, ref, ddeg, interval, bounds, fmt):
    """maps of the uplift of each hour (months taken as two days long)"""
    base = path(c, 'aod')
    L, hours = REL[rel]
    days = [datetime.date(2006, 2, 1 + i) for i in range(2)]
    terms = [(0, 0), (1, 0), (1, 1), (2, 1), (5, 3), (60, 2), (L, 0)]
    v, texts = {}, {}
    for d in days:
        w = {}
        for h in hours:
            for l, m in terms:
                w[h, l, m] = value(c, f'C{d.day},{h},{l},{m}'), value(c, f'S{d.day},{h},{l},{m}') if m else 0.0
        v[d], texts[d] = w, day_text(rel, d, {dset: w})
    write_tar(base, rel, 2006, 2, texts)
    if years == [2006]:
        write_tar(base, rel, 2007, 2, {})
    P = c.script('dealiasing_global_uplift')
    original, asked = c.gt.time.calendar_days, []
    def short(year):
        asked.append(year)
        return c.arr(np.array([9.0, 2.0] + 10*[9.0]))
    c.gt.time.calendar_days = short
    try:
        R = P.dealiasing_global_uplift(str(base), DREL=rel, DSET=dset, YEAR=years, LOVE_NUMBERS=lv, REFERENCE=ref, DDEG=ddeg, INTERVAL=interval, BOUNDS=bounds, DATAFORM=fmt, OUTPUT_DIRECTORY=base/'out')
    finally:
        c.gt.time.calendar_days = original
    c.same([int(x) for x in asked], [2006], 'years')
    f = base/'out'/f'AOD1B_{rel}_{dset}_mmCU_2006_02.{EXT[fmt]}'
    c.same([str(x) for x in R], [str(f)], 'files')
    lon, lat = nodes(ddeg, interval, bounds)
    h, k, l = love(c, L, lv, ref)
    n = len(days)*len(hours)
    e = c.zeros((len(lat), len(lon), n))
    for i, d in enumerate(days):
        for (g, p, q), (x, y) in v[d].items():
            z = 10.0*RAD*h[p]/(1 + k[p])*plm(p, q, lat)[:, None]
            a, b = z*np.cos(q*np.radians(lon))[None, :], z*np.sin(q*np.radians(lon))[None, :]
            j = i*len(hours) + hours.index(g)
            e[:, :, j] = e[:, :, j] + a*x + b*y
    if fmt == 'ascii':
        Z = c.gt.spatial().from_ascii(f, date=True, spacing=[ddeg[0], ddeg[-1]], extent=[lon[0], lon[-1], lat[-1], lat[0]])
    else:
        Z = getattr(c.gt.spatial(), 'from_' + fmt)(f, date=True)
    c.close(Z.lon, lon, 1e-4, 'longitudes')
    c.close(Z.lat, lat, 1e-4, 'latitudes')
    c.close(Z.time, np.array([24*i + g for i in range(2) for g in hours]), 1e-3, 'hours')
    c.close(Z.data, e, 6e-5 if fmt == 'ascii' else 1e-9, 'uplift')

doc('C41', 'coefficients of listed degrees (others 0) in files to degree 100 or 180 of up to 2 days per month, releases RL04-RL06', ['netCDF4 and HDF5 files are in-memory stand-ins in the encoding; every model is replayed through the real libraries'])
