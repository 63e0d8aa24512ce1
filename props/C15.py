"""C15 harmonics written to a file are read back"""
import gzip, zipfile, io, pathlib
import numpy as np
from symx.harness import harness, doc
from props.hutil import *

def signed(c, name, L, M, n=None, mag=10.0):
    """coefficients of known sign (both signs occur)"""
    Y = harm(c, name, L, M, n, 0, mag)
    for l in range(L+1):
        for m in range(min(l, M)+1):
            if (l + m) % 2:
                Y.clm[l, m] = -Y.clm[l, m]
            elif m:
                Y.slm[l, m] = -Y.slm[l, m]
    return Y

def packed(path, comp):
    data = path.read_bytes()
    if comp == 'gzip':
        p = path.with_name(path.name + '.gz')
        with gzip.open(p, 'wb') as f:
            f.write(data)
        return p, dict(compression='gzip')
    if comp == 'zip':
        p = path.with_name(path.name + '.zip')
        with zipfile.ZipFile(p, 'w') as z:
            z.writestr(path.name, data)
        return p, dict(compression='zip')
    if comp == 'bytes':
        b = io.BytesIO(data)
        b.filename = path.name
        return b, dict(compression='bytes')
    return path, {}

AS = [dict(L=L, M=M, date=d, comp=k, mag=g) for L, M, d, k, g in (
    (2, 2, True, None, 10.0), (3, 1, False, None, 0.5), (1, 0, True, 'gzip', 10.0), (3, 3, True, 'zip', 1e-3), (0, 0, True, None, 1.0), (2, 1, False, 'gzip', 1e6), (4, 2, True, None, 1e-9), (12, 0, False, None, 1.0), (120, 9, True, None, 1e-6), (40, 40, False, None, 1e-9))]

@harness('C15', configs=AS, thorough=[dict(L=12, M=12, date=True, comp=None, mag=1.0)], mix=16)
def ascii(c, L, M, date, comp, mag):
    Y = signed(c, 'a', L, M, mag=mag)
    y = keep(Y)
    f = pathlib.Path(c.tmpdir(), 'Ylms.txt')
    Y.to_ascii(f, date=date)
    p, kw = packed(f, comp)
    R = c.gt.harmonics().from_ascii(p, date=date, **kw)
    c.same((int(R.lmax), int(R.mmax), R.clm.shape), (L, M, (L+1, M+1)), 'degree and order')
    c.close(R.clm/mag, y[0]/mag, 2e-12, 'cosine')
    c.close(R.slm/mag, y[1]/mag, 2e-12, 'sine')
    if date:
        c.close(R.time, Y.time, 6e-5, 'time')
        c.same(int(R.month), int(Y.month), 'month')

@harness('C15', configs=[dict(times=t) for t in ((2002.29, 2012.51), (2020.1, 1999.97))])
def ascii_time(c, times):
    """date in the last column"""
    for i, t in enumerate(times):
        x = c.real(f't{i}', t, t + 0.02)
        Y = signed(c, f'a{i}', 1, 1)
        Y.time = x
        f = pathlib.Path(c.tmpdir(), f'Ylms{i}.txt')
        Y.to_ascii(f)
        R = c.gt.harmonics().from_ascii(f)
        c.close(R.time, x, 6e-5, 'time')
        c.close(R.month, (int(t) - 2002)*12 + int((t + 0.01 - int(t))*12) + 1, 0, 'month')

NC = [dict(fmt=k, L=L, M=M, n=n, date=d, comp=z) for k in ('netCDF4', 'HDF5') for L, M, n, d, z in (
    (2, 2, None, True, None), (3, 1, None, True, 'gzip'), (2, 2, 3, True, None), (3, 2, 1, True, None), (2, 0, 2, True, None),
    (0, 0, None, True, None), (4, 2, 4, True, 'zip'), (2, 1, 2, True, 'bytes'), (2, 2, None, False, None), (3, 1, None, False, None), (48, 30, None, True, None), (1, 1, 40, True, None))]

@harness('C15', configs=NC, thorough=[dict(fmt=k, L=12, M=m, n=4, date=True, comp=None) for k in ('netCDF4', 'HDF5') for m in (12, 5)], mix=16, ok=lambda n, date, **k: date or n is None)
def binary(c, fmt, L, M, n, date, comp):
    Y = harm(c, 'a', L, M, n)
    Y.attributes['ROOT'] = dict(project='GRACE')
    y = keep(Y)
    f = pathlib.Path(c.tmpdir(), 'Ylms.nc' if fmt == 'netCDF4' else 'Ylms.H5')
    kw = {} if date else dict(date=False)
    getattr(Y, 'to_' + fmt)(f, title='a title', reference='ref', units='cmwe', **kw)
    c.close(Y.clm, y[0], 0, 'original unchanged')
    p, kz = packed(f, comp)
    if comp == 'bytes' and fmt == 'HDF5':
        p = f
    R = getattr(c.gt.harmonics(), 'from_' + fmt)(p, **kw, **kz)
    if n == 1:
        y = [a[:, :, 0] for a in y]
    c.same((int(R.lmax), int(R.mmax), R.clm.shape), (L, M, y[0].shape), 'degree and order')
    c.close(c.array(R.clm), y[0], 0, 'cosine')
    c.close(c.array(R.slm), y[1], 0, 'sine')
    if date:
        c.close(c.array(R.time), c.array(Y.time) if n != 1 else Y.time[0], 0, 'time')
        c.close(c.array(R.month), c.array(Y.month) if n != 1 else Y.month[0], 0, 'month')
        c.same([str(x) for x in R.attributes['time']], ['years', 'Date_in_Decimal_Years'], 'time attributes')
    c.same([str(x) for x in R.attributes['clm']], ['cmwe', 'cosine_spherical_harmonics'], 'units')
    c.same([str(x) for x in R.attributes['slm']], ['cmwe', 'sine_spherical_harmonics'], 'units')
    a = R.attributes['ROOT']
    c.same((str(a['title']), str(a['reference']), str(a['project'])), ('a title', 'ref', 'GRACE'), 'attributes')

@harness('C15', configs=[dict(fmt=k, n=n, order=o) for k in ('ascii', 'netCDF4', 'HDF5') for n, o in ((3, (2, 0, 1)), (2, (0, 1)))])
def index_files(c, fmt, n, order):
    """a series as one file per month and an index"""
    Y = signed(c, 'a', 2, 1, n)
    y = keep(Y)
    d = pathlib.Path(c.tmpdir())
    files = [d/f'm{i}.dat' for i in range(n)]
    ix = d/'index.txt'
    Y.to_index(ix, files, format=fmt)
    lines = ix.read_text().splitlines()
    ix.write_text('# comment\n' + '\n'.join(lines[i] for i in order) + '\n')
    for sort in (True, False):
        R = c.gt.harmonics().from_index(ix, format=fmt, sort=sort)
        for t in range(n):
            k = t if sort else order[t]
            c.close(R.clm[:, :, t], y[0][:, :, k], 1e-11, 'cosine')
            c.close(R.slm[:, :, t], y[1][:, :, k], 1e-11, 'sine')
            c.close(R.time[t], Y.time[k], 6e-5, 'time')
            c.same(int(R.month[t]), int(Y.month[k]), 'month')
    for i in range(n):
        R = c.gt.harmonics().from_file(files[i], format=fmt)
        c.close(c.array(R.clm), y[0][:, :, i], 1e-11, 'cosine')
        Z = Y.index(i)
        Z.to_file(d/'one.dat', format=fmt)
        R = c.gt.harmonics().from_file(d/'ONE.DAT', format=fmt)
        c.close(c.array(R.slm), y[1][:, :, i], 1e-11, 'name in another case')
    Z.to_file(d/'Two (1+1).dat.old', format=fmt)
    try:
        c.gt.harmonics().from_file(d/'two (1+1).dat', format=fmt)
    except FileNotFoundError:
        pass
    else:
        c.true(False, 'a file with a longer name was read')
    Z.to_file(d/'Two (1+1).dat', format=fmt)
    R = c.gt.harmonics().from_file(d/'two (1+1).dat', format=fmt)
    c.close(c.array(R.clm), y[0][:, :, n-1], 1e-11, 'name with other characters in another case')

doc('C15', 'all coefficients of known sign up to 1e6 and down to 1e-9; degrees to 4 (zonal to 12, thorough 12), orders truncated or not; plain, gzip, zip and in-memory files; single fields and series of up to 4 months; degrees to 120 and series to 40 months',
    ['netCDF4 and HDF5 files are an in-memory stand-in in the encoding; every model is replayed through the real libraries', 'text of a number is an opaque token with the rounding of its format'])
