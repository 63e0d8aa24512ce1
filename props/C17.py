"""C17 gridded fields written to a file are read back"""
import pathlib
import numpy as np
from symx.harness import harness, doc
from props.hutil import *
from props.C15 import packed

# name: (dlon, dlat, first longitude, first latitude, nlon, nlat)
GRIDS = dict(cell=(90.0, 45.0, 45.0, 67.5, 4, 4), edge=(90.0, 45.0, 0.0, 90.0, 5, 5), wide=(120.0, 60.0, 60.0, 60.0, 3, 3), fine=(0.1, 0.1, 0.05, 89.95, 4, 3),
    finedge=(0.1, 0.1, 0.0, 90.0, 5, 4), world=(10.0, 10.0, 5.0, 85.0, 36, 18), half=(0.5, 0.5, 0.25, 89.75, 3, 4), quarter=(0.25, 0.25, 0.0, 90.0, 4, 3))
# grids of other parts of the globe (need their extent)
GRIDS.update(west=(60.0, 30.0, -150.0, 75.0, 6, 3), region=(5.0, 2.5, 22.5, 8.75, 3, 4), atlantic=(0.5, 0.5, -40.25, 12.75, 4, 3))
GLOBAL = [g for g in GRIDS if g not in ('west', 'region', 'atlantic')]

def gridded(c, g, mask, error=False, signed=True, nt=None, lo=None, hi=10):
    dlon, dlat, lon0, lat0, nx, ny = GRIDS[g]
    X = grid(c, 'a', ny, nx, nt, mask, error=error, lon0=lon0, lat0=lat0, dlon=dlon, dlat=dlat, lo=0 if signed else -hi, hi=hi)
    if signed:
        for i in np.ndindex(*X.shape):
            if sum(i) % 2 and not bool(X.mask[i]):
                X.data[i] = -X.data[i]
    return X

def size(kind, g):
    dlon, dlat, lon0, lat0, nx, ny = GRIDS[g]
    ext = [lon0, lon0 + dlon*(nx-1), lat0 - dlat*(ny-1), lat0]
    return dict(n=dict(nlat=ny, nlon=nx, spacing=[dlon, dlat]), extent=dict(extent=ext, nlat=ny, nlon=nx), spacing=dict(extent=ext, spacing=[dlon, dlat]))[kind]

AS = [dict(g=g, kind=k, mask=m, date=(i+j) % 2 == 0, error=j == 1, comp=(None, 'gzip', 'zip', None, 'bytes' if False else None)[(i+j) % 5], hdr=(i+j) % 3)
    for i, (g, k) in enumerate((g, k) for g in GRIDS for k in ('n', 'extent', 'spacing') if k != 'n' or g in GLOBAL) for j, m in enumerate((None, 'some'))]

@harness('C17', configs=AS, mix=16, ok=lambda g, kind, **k: not (g in ('west', 'atlantic', 'region') and kind == 'n'))
def ascii(c, g, kind, mask, date, error, comp, hdr):
    X = gridded(c, g, mask, error)
    x, m = X.data.copy(), holes(X.shape, mask)
    f = pathlib.Path(c.tmpdir(), 'grid.txt')
    X.to_ascii(f, date=date)
    if hdr:
        f.write_text('header\n'*hdr + f.read_text())
    p, kw = packed(f, comp)
    if error:
        kw['columns'] = ['lon', 'lat', 'data', 'error'] + (['time'] if date else [])
    R = c.gt.spatial(fill_value=FILL).from_ascii(p, date=date, header=hdr, **size(kind, g), **kw)
    check_grid(c, R, x, m, 'data', tol=6e-5)
    c.close(R.lon, X.lon, 6e-5, 'longitude')
    c.close(R.lat, X.lat, 6e-5, 'latitude')
    if date:
        c.close(R.time, X.time, 2e-4, 'time')
        c.same(int(R.month), int(X.month), 'month')

NC = [dict(fmt=f, g=g, nt=n, mask=m, date=d, error=e, comp=z) for f in ('netCDF4', 'HDF5') for g, n, m, d, e, z in (
    ('cell', None, None, True, False, None), ('cell', 3, 'some', True, False, None), ('fine', None, 'some', True, False, 'gzip'), ('finedge', 2, 'month', True, True, None),
    ('wide', None, 'some', False, False, None), ('fine', None, None, False, True, 'zip'), ('half', None, 'some', True, True, None), ('half', 4, 'some', True, False, None), ('wide', 2, None, True, True, None), ('edge', 1, 'some', True, False, None), ('world', None, 'some', True, False, None), ('wide', 40, 'month', True, False, None))]

@harness('C17', configs=NC, mix=24, ok=lambda nt, date, **k: date or nt is None)
def binary(c, fmt, g, nt, mask, date, error, comp):
    X = gridded(c, g, mask, error, signed=False, nt=nt)
    X.attributes['ROOT'] = dict(project='GRACE')
    x, m = X.data.copy(), holes(X.shape, mask)
    err = X.error.copy() if error else None
    f = pathlib.Path(c.tmpdir(), 'grid.nc' if fmt == 'netCDF4' else 'grid.H5')
    kw = dict(date=date)
    fields = dict(lon='longitude', lat='latitude', data='kfactor', error='err') if error else {}
    if error and date:
        fields['time'] = 't'
    if error:
        kw['field_mapping'] = fields
        wr = dict(attributes=dict(ROOT=dict(project='GRACE'), longitude=dict(units='degrees_east'), latitude={}, err={}, t=dict(units='years'), kfactor=dict(units='cmwe', long_name='thickness')))
    else:
        wr = dict(units='cmwe', longname='thickness')
        kw['varname'] = 'water'
    getattr(X, 'to_' + fmt)(f, title='a title', reference='ref', **wr, **kw)
    p, kz = packed(f, comp)
    R = getattr(c.gt.spatial(fill_value=FILL), 'from_' + fmt)(p, **kw, **kz)
    if nt == 1:
        x, m = x[:, :, 0], m[:, :, 0]
        err = err[:, :, 0] if error else None
    check_grid(c, R, x, m, 'data', tol=0, error=err)
    c.close(R.lon, X.lon, 0, 'longitude')
    c.close(R.lat, X.lat, 0, 'latitude')
    if date:
        c.close(c.array(R.time).reshape(-1), c.array(X.time).reshape(-1), 0, 'time')
        c.close(c.array(R.month).reshape(-1), c.array(X.month).reshape(-1), 0, 'month')
    c.same((str(R.attributes['ROOT']['title']), str(R.attributes['ROOT']['reference']), str(R.attributes['ROOT']['project'])), ('a title', 'ref', 'GRACE'), 'attributes')
    c.same((str(R.attributes['data']['units']), str(R.attributes['data']['long_name']), float(R.fill_value)), ('cmwe', 'thickness', FILL), 'attributes')

@harness('C17', configs=[dict(fmt=k, g=g, n=n, order=o, date=d) for k in ('ascii', 'netCDF4', 'HDF5') for g, n, o, d in (('cell', 3, (2, 0, 1), True), ('half', 2, (0, 1), True), ('wide', 2, (1, 0), False), ('region', 2, (1, 0), True))], mix=16, ok=lambda n, order, **k: sorted(order) == list(range(n)))
def index_files(c, fmt, g, n, order, date):
    X = gridded(c, g, 'some', nt=n)
    x, m = X.data.copy(), holes(X.shape, 'some')
    d = pathlib.Path(c.tmpdir())
    files = [d/f'm{i}.dat' for i in range(n)]
    ix = d/'index.txt'
    X.to_index(ix, files, format=fmt, date=date)
    lines = ix.read_text().splitlines()
    ix.write_text('# comment\n' + '\n'.join(lines[i] for i in order) + '\n')
    kw = size('n' if g == 'half' else 'extent', g) if fmt == 'ascii' else {}
    for sort in (True, False):
        R = c.gt.spatial(fill_value=FILL).from_index(ix, format=fmt, sort=sort, date=date, **kw)
        for t in range(n):
            k = t if sort and date else order[t]
            for i in np.ndindex(*X.shape[:2]):
                if not m[i + (k,)]:
                    c.close(R.data[i + (t,)], x[i + (k,)], 6e-5, 'data')
            if fmt != 'ascii':
                c.close(c.array(R.mask[:, :, t]), c.array(m[:, :, k]), 0, 'mask')
            if date:
                c.close(R.time[t], X.time[k], 2e-4, 'time')
                c.same(int(R.month[t]), int(X.month[k]), 'month')
    kw.update(date=date)
    R = c.gt.spatial(fill_value=FILL).from_file(d/'M1.DAT', format=fmt, **kw)
    for i in np.ndindex(*X.shape[:2]):
        if not m[i + (1,)]:
            c.close(R.data[i], x[i + (1,)], 6e-5, 'name in another case')
    (d/'Map.dat.old').write_text('')
    try:
        c.gt.spatial(fill_value=FILL).from_file(d/'map.dat', format=fmt, **kw)
    except FileNotFoundError:
        pass
    else:
        c.true(False, 'a file with a longer name was read')
    Z = X.index(0)
    Z.to_file(d/'one.dat', format=fmt, date=date)
    R = c.gt.spatial(fill_value=FILL).from_file(d/'one.dat', format=fmt, **kw)
    for i in np.ndindex(*X.shape[:2]):
        if not m[i + (0,)]:
            c.close(R.data[i], x[i + (0,)], 6e-5, 'single file')

@harness('C17', configs=[dict(fmt=f, g=g, nt=n, swap=w, fill=v, date=d) for f in ('netCDF4', 'HDF5') for g, n, w, v, d in (('half', None, True, False, False), ('cell', None, False, False, True), ('region', None, True, True, True), ('quarter', None, True, -99.5, False), ('half', 3, False, False, True), ('half', 2, False, -99.5, True), ('finedge', None, False, True, True))], mix=12, ok=lambda g, nt, fill, swap, **k: nt is None and not (fill is True) and not (swap and g == 'cell'))
def foreign(c, fmt, g, nt, swap, fill, date):
    """files of other programs: longitudes first, without a fill value or with another one"""
    X = gridded(c, g, None, nt=nt)
    x, m = X.data.copy(), holes(X.shape, 'some' if fill else None)
    F = FILL if fill is True else fill
    for i in np.ndindex(*x.shape):
        if m[i]:
            x[i] = F
    f = pathlib.Path(c.tmpdir(), 'other.nc' if fmt == 'netCDF4' else 'other.H5')
    dims = ('longitude', 'latitude') if swap else ('latitude', 'longitude')
    z = c.array(x).T if swap else c.array(x)
    if nt:
        dims += ('time',)
    mod = c.mod('spatial')
    if fmt == 'netCDF4':
        o = mod.netCDF4.Dataset(f, 'w')
        for n, k in zip(('longitude', 'latitude', 'time'), x.shape if nt else x.shape + (1,)):
            o.createDimension(n, {'longitude': x.shape[1], 'latitude': x.shape[0]}.get(n, k))
        for n, v, d in (('longitude', X.lon, ('longitude',)), ('latitude', X.lat, ('latitude',)), ('epoch', X.time, ('time',)), ('height', z, dims)):
            V = o.createVariable(n, 'f8', d, **(dict(fill_value=F) if fill and n == 'height' else {}))
            V[:] = v
        o.variables['height'].setncattr('units', 'cm')
        o.close()
    else:
        o = mod.h5py.File(f, 'w')
        for n, v in (('longitude', X.lon), ('latitude', X.lat), ('epoch', np.atleast_1d(X.time) if nt is None else X.time), ('height', z)):
            o.create_dataset(n, v.shape, data=v, dtype='f8')
        o['height'].attrs['units'] = 'cm'
        if fill:
            o['height'].attrs['_FillValue'] = F
        o.close()
    R = getattr(c.gt.spatial(fill_value=FILL), 'from_' + fmt)(f, varname='height', lonname='longitude', latname='latitude', timename='epoch', date=date)
    check_grid(c, R, x, m, 'data', fill=F or FILL, tol=0)
    c.close(R.lon, X.lon, 0, 'longitude')
    c.close(R.lat, X.lat, 0, 'latitude')
    c.same((str(R.attributes['data']['units']), float(R.fill_value)), ('cm', F or FILL), 'attributes')
    if date:
        c.close(c.array(R.time).reshape(-1), c.array(X.time).reshape(-1), 0, 'time')
        c.close(c.array(R.month).reshape(-1), c.array(X.month).reshape(-1), 0, 'month')

@harness('C17', configs=[dict(g=g, mask=m, comp=z) for g, m, z in (('cell', None, None), ('fine', 'some', 'gzip'), ('half', 'some', None), ('west', 'some', None), ('atlantic', None, None))], mix=12)
def scaling_factors(c, g, mask, comp):
    X = gridded(c, g, mask, True)
    m = holes(X.shape, mask)
    K = c.gt.scaling_factors(fill_value=FILL)
    for k in ('lon', 'lat', 'data', 'mask', 'error'):
        setattr(K, k, getattr(X, k).copy())
    K.magnitude = c.zeros(X.shape)
    for i in np.ndindex(*X.shape):
        K.magnitude[i] = FILL if m[i] else c.real(f'mag{i}', 0, 100)
    f = pathlib.Path(c.tmpdir(), 'k.txt')
    K.to_ascii(f)
    p, kw = packed(f, comp)
    R = c.gt.scaling_factors(fill_value=FILL).from_ascii(p, **size('extent', g), **kw)
    check_grid(c, R, X.data, m, 'factor', tol=6e-5, error=None)
    for i in np.ndindex(*X.shape):
        if not m[i]:
            c.close(R.error[i], X.error[i], 6e-5, 'error')
            c.close(R.magnitude[i], K.magnitude[i], 6e-5, 'magnitude')
    c.close(R.lon, X.lon, 6e-5, 'longitude')
    c.close(R.lat, X.lat, 6e-5, 'latitude')

doc('C17', 'all values up to 10 in size (known sign in text files); global and regional grids with spacings of 0.1 to 120 degrees, cell- or edge-registered, square or not; with and without missing cells, errors and dates; plain, gzip and zip files; series of up to 4 months; grids to 36x18, series to 40 months',
    ['netCDF4 and HDF5 files are an in-memory stand-in in the encoding; every model is replayed through the real libraries', 'text of a number is an opaque token with the rounding of its format'])
