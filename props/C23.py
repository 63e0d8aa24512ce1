"""C23 harmonics of the land and ocean functions"""
import pathlib
import numpy as np
from symx.harness import harness, doc
from props.hutil import *
from props.C11 import quadrature
from props.C12 import RAD, RHO
from props.oracles import legendre_table

BASE = [[0, 1, 1, 4, 3, 1], [1, 2, 0, 0, 3, 0], [0, 0, 1, 1, 4, 1], [2, 0, 3, 4, 0, 0], [1, 1, 0, 0, 1, 0]]

def write_mask(c, data, lon, lat, name):
    f = pathlib.Path(c.tmpdir(), 'landsea.nc')
    nc = c.mod('spatial').netCDF4.Dataset(f, 'w')
    nc.createDimension('lon', len(lon))
    nc.createDimension('lat', len(lat))
    for k, v, d in (('lon', lon, ('lon',)), ('lat', lat, ('lat',)), (name, data, ('lat', 'lon'))):
        x = nc.createVariable(k, 'i4' if k == name else 'f8', d)
        x.setncattr('units', 'degrees')
        x.setncattr('long_name', k)
        x[:] = v
    nc.close()
    return f

CF = [dict(L=L, M=M, nlat=nt, nlon=nl, free=fr, simplify=s, name=n, north=no) for L, M, nt, nl, fr, s, n, no in (
    (2, None, 3, 6, ((0, 0), (1, 2), (2, 4), (2, 0)), False, 'LSMASK', True), (3, 2, 4, 6, ((0, 5), (1, 1), (3, 0), (3, 2)), False, 'mask', False),
    (2, None, 4, 6, ((0, 1), (0, 2), (1, 1), (2, 2), (3, 5), (3, 0)), True, 'LSMASK', True), (1, None, 5, 4, ((1, 0), (1, 3), (4, 1), (3, 2), (2, 2)), True, 'LSMASK', False), (0, None, 2, 4, ((0, 0), (1, 3)), False, 'LSMASK', True), (3, 1, 3, 5, ((1, 1), (1, 2), (0, 1)), True, 'm', True))]

@harness('C23', configs=CF, thorough=[dict(L=4, M=None, nlat=5, nlon=6, free=((0, 0), (0, 3), (1, 0), (1, 5), (2, 2), (4, 4), (4, 0), (3, 3)), simplify=s, name='LSMASK', north=True) for s in (True, False)], mix=10, ok=lambda nlat, nlon, free, **k: nlat != nlon and all(i < nlat and j < nlon for i, j in free))
def functions(c, L, M, nlat, nlon, free, simplify, name, north):
    D = c.arr(np.array(BASE)[:nlat, :nlon], dtype=int)
    for i, j in free:
        D[i, j] = c.int(f'class{i},{j}', 0, 4)
    dlon, dlat = 360.0/nlon, 180.0/nlat
    lon = [dlon/2 + i*dlon for i in range(nlon)]
    lat = [90 - dlat/2 - i*dlat for i in range(nlat)]
    lat = lat if north else lat[::-1]
    k = c.reals('k', L+1, -0.3, 0.3)
    love = (c.zeros(L+1), k, c.zeros(L+1))
    f = write_mask(c, D, lon, lat, name)
    kw = {} if name == 'LSMASK' else dict(VARNAME=name)
    A = c.gt.ocean_stokes(f, L, MMAX=M, LOVE=love, SIMPLIFY=simplify, **kw)
    B = c.gt.land_stokes(str(f), L, MMAX=M, LOVE=love, SIMPLIFY=simplify, **kw)
    land = np.zeros((nlat, nlon))
    for i, j in np.ndindex(nlat, nlon):
        land[i, j] = 1.0 if c.pick((D[i, j] >= 1) & (D[i, j] <= 3)) else 0.0
    if simplify:
        new = land.copy()
        for i, j in np.ndindex(nlat, nlon):
            if land[i, j]:
                near = land[i, (j+1) % nlon] + land[i, j-1] + land[1 if i == 0 else i-1, j] + land[nlat-2 if i == nlat-1 else i+1, j]
                if near <= 1:
                    new[i, j] = 0.0
        land = new
    fac = [3*(1 + k[i])/(2*i+1)/(4*np.pi*RAD*RHO)*1e11 for i in range(L+1)]
    area = np.cos(np.radians(lat))*np.radians(dlon)*np.radians(dlat)
    Mx = L if M is None else M
    for Y, g, what in ((A, 1 - land, 'ocean'), (B, land, 'land')):
        C, S = quadrature(c, g.T, lon, lat, area, L, Mx, 0, fac)
        c.close(Y.clm*1e11, C, 1e-7, f'{what} cosine')
        c.close(Y.slm*1e11, S, 1e-7, f'{what} sine')
        c.same((int(Y.lmax), int(Y.mmax)), (L, Mx), 'degree and order')

@harness('C23', configs=[dict(ny=3, nx=4), dict(ny=2, nx=3), dict(ny=4, nx=2)])
def isolated(c, ny, nx):
    """single points of land"""
    D = c.zeros((ny, nx))
    free = [(i, j) for i in range(ny) for j in range(nx)][:9]
    for i, j in free:
        D[i, j] = 1.0*c.int(f'land{i},{j}', 0, 1)
    D0 = D.copy()
    R = c.gt.ocean_stokes.__globals__['find_isolated_points'](D) if callable(c.gt.ocean_stokes) else c.mod('ocean_stokes').find_isolated_points(D)
    for i, j in np.ndindex(ny, nx):
        n = D0[i, (j+1) % nx] + D0[i, j-1] + D0[1 if i == 0 else i-1, j] + D0[ny-2 if i == ny-1 else i+1, j]
        c.true(((R[i, j] == 1) & (D0[i, j] == 1) & (n <= 1)) | ((R[i, j] == 0) & ((D0[i, j] == 0) | (n >= 2))), f'cell {i},{j}')
    c.close(D, D0, 0, 'mask')

def continents(nlat, nlon):
    """mask with large and small continents, islands, lakes and ice shelves"""
    x, y = np.meshgrid(2*np.pi*(np.arange(nlon) + 0.5)/nlon, np.pi*((np.arange(nlat) + 0.5)/nlat - 0.5))
    h = np.sin(x) + 0.8*np.cos(2*x + 1)*np.cos(y) - np.sin(2*y) + 0.4*np.sin(9*x + 5*y)*np.cos(7*y)
    D = np.where(h > 0.5, 1, 0)
    D[(h > 0.5) & (np.arange(nlat*nlon).reshape(nlat, nlon) % 11 == 3)] = 2
    D[(h > 0.3) & (h < 0.36)] = 3
    D[(y < -1.2) & (h <= 0.3)] = 4
    return D

@harness('C23', configs=[dict(L=L, M=M, nlat=a, nlon=b, free=f, simplify=s, north=n) for L, M, a, b, f, s, n in (
    (20, None, 30, 60, ((3, 59), (15, 0)), True, True), (36, 24, 36, 72, ((20, 30), (0, 5)), False, True), (40, None, 24, 50, ((23, 49),), True, False))])
def realistic(c, L, M, nlat, nlon, free, simplify, north):
    """masks of continents and high degrees"""
    D = c.arr(continents(nlat, nlon), dtype=int)
    for i, j in free:
        D[i, j] = c.int(f'class{i},{j}', 0, 4)
    dlon, dlat = 360.0/nlon, 180.0/nlat
    lon = dlon/2 + dlon*np.arange(nlon)
    lat = 90 - dlat/2 - dlat*np.arange(nlat)
    lat = lat if north else lat[::-1].copy()
    l = np.arange(L+1)
    k = -0.31/(l + 1.0)**0.8
    love = tuple(c.arr(x) for x in (0*k, k, 0*k))
    f = write_mask(c, D, [float(x) for x in lon], [float(x) for x in lat], 'LSMASK')
    A = c.gt.ocean_stokes(f, L, MMAX=M, LOVE=love, SIMPLIFY=simplify)
    B = c.gt.land_stokes(f, L, MMAX=M, LOVE=love, SIMPLIFY=simplify)
    land = np.zeros((nlat, nlon))
    for i, j in np.ndindex(nlat, nlon):
        land[i, j] = 1.0 if c.pick((D[i, j] >= 1) & (D[i, j] <= 3)) else 0.0
    if simplify:
        near = np.roll(land, 1, 1) + np.roll(land, -1, 1) + np.vstack([land[1:], land[-2:-1]]) + np.vstack([land[1:2], land[:-1]])
        land = np.where((land > 0) & (near <= 1), 0.0, land)
    fac = 3*(1 + k)/(2*l + 1)/(4*np.pi*RAD*RHO)*1e11
    P = legendre_table(L, L if M is None else M, lat)
    ph = np.radians(lon)
    area = np.cos(np.radians(lat))*np.radians(dlon)*np.radians(dlat)
    Mx = L if M is None else M
    m = np.arange(Mx+1)
    for Y, g, what in ((A, 1 - land, 'ocean'), (B, land, 'land')):
        C = np.einsum('l,lmy,y,yx,mx->lm', fac, P, area, g, np.cos(np.outer(m, ph)), optimize=True)
        S = np.einsum('l,lmy,y,yx,mx->lm', fac, P, area, g, np.sin(np.outer(m, ph)), optimize=True)
        c.close(Y.clm*1e11, c.arr(C), 1e-7, f'{what} cosine')
        c.close(Y.slm*1e11, c.arr(S), 1e-7, f'{what} sine')
        c.same((int(Y.lmax), int(Y.mmax)), (L, Mx), 'degree and order')

doc('C23', 'every combination of classes 0-4 in 2 to 6 (thorough 8) cells of 5x6 grids, every land pattern in 8 or 9 cells, all load Love numbers, degrees to 3 (thorough 4)')
