"""C29 GRACE/GRACE-FO level-2 files"""
import gzip, io, datetime
import numpy as np
from symx.harness import harness, doc
from props.hutil import *
from props.C22 import path

YAML = """header:
  dimensions:
    degree: 60
    order: 60
  global_attributes:
    acknowledgement: "GRACE: a mission"
    title: GRACE Geopotential Coefficients
  non-standard_attributes:
    earth_gravity_param:
      long_name: gravitational constant times mass of Earth
      value: 3.9860044150E+14
# End of YAML header"""
PLAIN = """FIRST  CAT ACTIVE
EARTH 3.986004415e+14 6378136.3
"""
GFC = """product_type gravity_field
modelname COSTG
earth_gravity_constant 3.9860044150e+14
radius 6.3781366000e+06
max_degree 60
errors formal
norm fully_normalized
tide_system zero_tide
key  L  M  C  S  sigma C  sigma S
end_of_head ==="""

def decimal(y0, d0, y1, d1):
    leap = lambda y: y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    n = 366.0 if leap(y0) else 365.0
    return y0 + 0.5*(d0 + (y1 - y0)*n + d1)/n

def julian(y, d):
    return (datetime.date(y, 1, 1) - datetime.date(1858, 11, 17)).days + d - 1 + 2400000.5

def pole(center, t):
    """pole tide of Wahr et al. (2015) not removed by the centre"""
    dt = t - 2000.0
    m1 = m2 = 0.0
    if center in ('UTCSR', 'JPLEM', 'JPLMSC'):
        if t < 2010.0:
            m1 = 0.055974 + 1.8243e-3*dt + 1.8413e-4*dt**2 + 7.024e-6*dt**3
            m2 = -(0.346346 + 1.7896e-3*dt - 1.0729e-4*dt**2 - 0.908e-6*dt**3)
        else:
            m1, m2 = 0.023513 + 7.6141e-3*dt, -(0.358891 - 0.6287e-3*dt)
    elif center not in ('EIGEN', 'GFZOP'):
        return 0.0, 0.0
    a, b = m1 - 0.62e-3*dt, m2 + 3.48e-3*dt
    return -1.551e-9*a - 0.012e-9*b, 0.021e-9*a - 1.505e-9*b

#  name, centre, style of the header, (start year, day, end year, day)
NAMES = {
    'csr6': ('{d}-2_{s}_GRAC_UTCSR_BA01_0600', 'UTCSR', YAML), 'csrfo': ('{d}-2_{s}_GRFO_UTCSR_BA01_0600', 'UTCSR', YAML), 'jplfo': ('{d}-2_{s}_GRFO_JPLEM_BB01_0601', 'JPLEM', YAML),
    'gfz6': ('{d}-2_{s}_GRAC_GFZOP_BB01_0600', 'GFZOP', YAML), 'gfz5': ('{d}-2_{s}_0027_EIGEN_G---_005a', 'EIGEN', PLAIN), 'csr5': ('{d}-2_{s}_0021_UTCSR_0096_0005', 'UTCSR', PLAIN),
    'csr4': ('{d}-2_{s}_0021_UTCSR_0060_0004', 'UTCSR', PLAIN), 'jpl4': ('{d}-2_{s}_0018_JPLEM_0001_0004', 'JPLEM', PLAIN), 'mascon': ('{d}-2_{s}_GRAC_JPLMSC_BA01_0600', 'JPLMSC', YAML),
    'costg': ('{d}-2_{s}_GRAC_COSTG_BF01_0100.gfc', 'COSTG', GFC), 'ddk': ('kfilter_DDK3_{d}-2_{s}_GRAC_GFZOP_BA01_0600.gfc', 'GFZOP', GFC), 'gfzgfc': ('{d}-2_{s}_GRFO_GFZOP_BA01_0600.gfc', 'GFZOP', GFC), 'grgs': ('{d}-2_{s}_0031_GRGS_SH90_0005.txt', 'GRGS', PLAIN)}

RC = [dict(name=n, dset=d, span=s, LF=lf, L=L, M=M, first=f, pole_tide=p, src=src) for n, d, s, lf, L, M, f, p, src in (
    ('csr6', 'GSM', (2002, 95, 2002, 120), 4, 4, None, 0, True, 'path'), ('csr6', 'GAD', (2003, 350, 2004, 14), 5, 3, None, 0, True, 'gz'), ('csrfo', 'GSM', (2018, 152, 2018, 181), 3, 5, None, 2, True, 'str'),
    ('jplfo', 'GAC', (2020, 1, 2020, 31), 4, 4, 2, 0, False, 'bytes'), ('jplfo', 'GSM', (2019, 335, 2019, 365), 4, 3, 1, 2, True, 'bytesgz'), ('gfz6', 'GSM', (2008, 61, 2008, 91), 4, 4, None, 0, True, 'gz'),
    ('gfz5', 'GSM', (2012, 305, 2012, 335), 4, 4, 3, 2, True, 'gz'), ('csr5', 'GAB', (2011, 289, 2011, 320), 3, 3, None, 0, False, 'path'), ('csr5', 'GSM', (2009, 335, 2010, 30), 3, 3, None, 2, True, 'path'),
    ('csr4', 'GSM', (2004, 1, 2004, 31), 5, 5, None, 0, False, 'gz'), ('jpl4', 'GSM', (2008, 336, 2008, 366), 4, 4, None, 2, True, 'path'), ('csr4', 'GAC', (2007, 32, 2007, 59), 3, 3, None, 0, True, 'path'),
    ('csr4', 'GSM', (2005, 60, 2005, 90), 5, 3, None, 2, False, 'path'), ('jpl4', 'GSM', (2003, 32, 2003, 59), 5, 5, 1, 0, False, 'path'), ('mascon', 'GSM', (2016, 1, 2016, 31), 4, 4, None, 0, True, 'path'),
    ('costg', 'GSM', (2015, 100, 2015, 130), 4, 4, None, 2, True, 'path'), ('ddk', 'GSM', (2010, 1, 2010, 31), 4, 3, None, 2, True, 'path'), ('gfzgfc', 'GAA', (2021, 32, 2021, 59), 3, 3, 2, 0, False, 'path'), ('gfzgfc', 'GSM', (2022, 32, 2022, 59), 4, 4, None, 0, True, 'path'),
    ('grgs', 'GSM', (2006, 10, 2006, 40), 4, 4, None, 2, True, 'path'), ('grgs', 'GAC', (2006, 10, 2006, 40), 3, 3, None, 0, False, 'txtgz'), ('csr6', 'GSM', (2009, 350, 2010, 15), 2, 2, None, 0, True, 'path'))]
#  spans: crossing years (from and into leap years), ends of the pole tide model, single days
SPANS = ((2005, 340, 2006, 20), (2004, 350, 2005, 16), (2003, 350, 2004, 20), (2009, 351, 2010, 14), (2010, 1, 2010, 2), (2008, 60, 2008, 60), (2012, 350, 2013, 31))
RC += [dict(name=n, dset=d, span=SPANS[(i + 3*j + k) % 7], LF=3, L=3, M=None, first=0, pole_tide=bool((i + j + k) % 3), src=('path', 'str' if NAMES[n][2] is GFC else 'gz', 'str')[(i + k) % 3])
    for i, n in enumerate(NAMES) for j, d in enumerate(('GSM', 'GAC')) for k in range(4 if d == 'GSM' else 0 if n in ('ddk', 'mascon') else 1)]

#  degrees of published files
RC += [dict(name=n, dset=d, span=(2005, 100, 2005, 130), LF=60, L=L, M=M, first=2 if n == 'csr6' else 0, pole_tide=True, src='str' if NAMES[n][2] is GFC else 'gz') for n, d, L, M in (('csr6', 'GSM', 60, None), ('csr4', 'GSM', 60, 30), ('costg', 'GSM', 60, None), ('gfz6', 'GAC', 45, None))]

@harness('C29', configs=RC, thorough=[dict(name=n, dset='GSM', span=s, LF=24, L=L, M=M, first=0, pole_tide=True, src='gz') for n, s, L, M in (('csr6', (2004, 1, 2004, 31), 24, None), ('jplfo', (2023, 335, 2024, 2), 20, 15), ('gfz6', (2011, 200, 2011, 230), 24, 10), ('csr4', (2006, 1, 2006, 31), 24, None))] + [dict(name=n, dset='GSM', span=(2005, 100, 2005, 130), LF=105, L=103, M=None, first=2, pole_tide=True, src='gz') for n in ('csr6', 'jplfo')], mix=24, ok=lambda LF, src, name, dset, **k: LF < 10 and not src.endswith('gz') and (name not in ('mascon', 'ddk') or dset == 'GSM'))
def level2(c, name, dset, span, LF, L, M, first, pole_tide, src):
    pat, center, head = NAMES[name]
    y0, d0, y1, d1 = span
    fn = pat.format(d=dset, s=f'{y0}{d0:03d}-{y1}{d1:03d}') + ('.gz' if 'gz' in src else '')
    flag = 'gfc   ' if head is GFC else 'GRCOF2'
    v = {}
    rows = []
    for l in range(first, LF+1):
        for m in range(l+1):
            for k in ('clm', 'slm', 'eclm', 'eslm'):
                v[k, l, m] = 0.0 if (m == 0 and 's' in k) else c.real(f'{k}{l},{m}', -1e-6, -1e-14) if (l + m + len(k)) % 2 and k[0] != 'e' else c.real(f'{k}{l},{m}', 1e-14, 1e-6)
            rows.append((l, m))
    if name != 'csr5':
        rows.sort(key=lambda r: (r[1], r[0]))
    text = [x for x in head.split('\n')]
    for i, (l, m) in enumerate(rows):
        text.append(f'{flag} {l:4d} {m:4d} ' + ' '.join(f'{v[k,l,m]:22.14E}' for k in ('clm', 'slm', 'eclm', 'eslm')) + f' {20020401.0:13.4f} {20020501.0:13.4f} nnnn')
    rate = {}
    if name in ('csr4', 'jpl4') and dset == 'GSM':
        for l, m in ((2, 0), (3, 0), (4, 0), (2, 1)):
            rate[l, m] = (c.real(f'dc{l}{m}', 1e-13, 1e-10), c.real(f'ds{l}{m}', 1e-13, 1e-10) if m else 0.0)
            text.insert(len(head.split('\n')) + 2, f'GRDOTA {l:4d} {m:4d} ' + ' '.join(f'{x:22.14E}' for x in rate[l, m]) + ' 0.0 0.0 20000101.0')
    data = ('\n'.join(text) + '\n').encode('utf8')
    if 'gz' in src:
        data = gzip.compress(data)
    f = path(c, fn)
    f.write_bytes(data)
    fid = f
    if src == 'str':
        fid = str(f)
    elif src.startswith('bytes'):
        fid = io.BytesIO(data)
        fid.filename = fn
    kw = {} if M is None else dict(MMAX=M)
    kw.update(dict(POLE_TIDE=True) if pole_tide else {})
    R = c.gt.read_GRACE_harmonics(fid, L, **kw)
    M = L if M is None else M
    t = decimal(y0, d0, y1, d1)
    e = {k: c.zeros((L+1, M+1)) for k in ('clm', 'slm', 'eclm', 'eslm')}
    e['clm'][0, 0] = 1.0
    for l, m in rows:
        if l <= L and m <= M:
            for k in e:
                e[k][l, m] = v[k, l, m]
    for (l, m), (x, y) in rate.items():
        if l <= L and m <= M:
            e['clm'][l, m] = e['clm'][l, m] + (t - 2003.3)*x
            e['slm'][l, m] = e['slm'][l, m] + (t - 2003.3)*y
    if pole_tide and dset == 'GSM':
        x, y = pole(center, t)
        e['clm'][2, 1] = e['clm'][2, 1] - x
        e['slm'][2, 1] = e['slm'][2, 1] - y
    for k in e:
        c.close(c.array(R[k])*1e6, e[k]*1e6, 1e-11, k)
    c.close(R['time'], t, 1e-9, 'time')
    c.close(c.array(R['start']).reshape(-1), c.arr([julian(y0, d0)]), 1e-6, 'start')
    c.close(c.array(R['end']).reshape(-1), c.arr([julian(y1, d1)]), 1e-6, 'end')
    c.close(R['l'], np.arange(L+1), 0, 'degrees')
    c.close(R['m'], np.arange(M+1), 0, 'orders')
    h = R['header']
    if head is YAML:
        c.same((h['dimensions']['degree'], h['global_attributes']['title'], h['non-standard_attributes']['earth_gravity_param']['value']), ('60', 'GRACE Geopotential Coefficients', '3.9860044150E+14'), 'header')
    elif head is GFC:
        c.same((h['earth_gravity_constant'], h['radius'], h['tide_system']), ('3.9860044150e+14', '6.3781366000e+06', 'zero_tide'), 'header')
    else:
        c.same(h[:2], PLAIN.split('\n')[:2], 'header')

doc('C29', 'every coefficient and uncertainty of files to degree 60, of each format and centre, truncation above and below the degree of the file, listed spans of dates (leap years, across years)')
