"""C07 degree-dependent unit factors"""
import numpy as np
from symx.harness import harness, doc

HARM = ('norm', 'cmwe', 'mmwe', 'mmGH', 'mmCU', 'mmCH', 'cmVCU', 'mVCU', 'microGal', 'mbar', 'Pa')

def love(c, n):
    return c.reals('h', n, -3, 3), c.reals('k', n, -0.5, 0.9), c.reals('l', n, -2, 2)

def consts(a=6.378137e8, flat=1.0/298.257223563):
    G, GM = 6.67430e-8, 3986004.418e14 - 3.5e14
    rad = a*(1.0 - flat)**(1.0/3.0)
    rho = 0.75*GM/(G*np.pi*rad**3)
    return G, GM, rad, rho

EARTH = [dict(), dict(a_axis=6.378136e8, flat=1.0/298.257), dict(a_axis=6.371e8, flat=0.0)]

@harness('C07', configs=[dict(L=L, earth=e, el=el, ob=ob) for L in (0, 1, 5) for e in range(3) for el in (None, True, False) for ob in (None, True)][:30] + [dict(L=100, earth=1, el=None, ob=None), dict(L=100, earth=0, el=True, ob=True)],
    thorough=[dict(L=L, earth=0, el=None, ob=None) for L in (12, 60)])
def harmonic_factors(c, L, earth, el, ob):
    h, k, l = love(c, L+3)      # longer arrays than the maximum degree are allowed
    kw = {}
    if el is not None:
        kw['include_elastic'] = el
    if ob is not None:
        kw['include_ellipsoidal'] = ob
    f = c.gt.units(lmax=L, **EARTH[earth]).harmonic(h, k, l, **kw)
    a, fl = EARTH[earth].get('a_axis', 6.378137e8), EARTH[earth].get('flat', 1.0/298.257223563)
    G, GM, rad, rho = consts(a, fl)
    deg = np.arange(L+1)
    load = c.array([(1.0 + (k[i] if el is not False else 0.0))/((1.0 - fl) if ob else 1.0) for i in range(L+1)])
    g = 980.665
    exp = dict(norm=1.0 + 0*load, cmwe=rho*rad*(2*deg+1)/3/load, mmGH=10*rad + 0*load,
        mmCU=10*rad*h[:L+1]/load, mmCH=10*rad*l[:L+1]/load, cmVCU=rad*(2*deg+1)/2 + 0*load,
        microGal=1e6*GM*(deg+1)/rad**2 + 0*load)
    exp['mmwe'] = 10*exp['cmwe']
    exp['mVCU'] = exp['cmVCU']/100
    exp['mbar'] = g*exp['cmwe']/1000
    exp['Pa'] = 100*exp['mbar']
    scale = dict(norm=1, cmwe=1e9, mmGH=1e10, mmCU=1e10, mmCH=1e10, cmVCU=1e9, microGal=1e9, mmwe=1e10, mVCU=1e7, mbar=1e9, Pa=1e11)
    for u in HARM:
        c.close(f.get(u)/scale[u], exp[u]/scale[u], 1e-6, u)
        c.close(f[u]/scale[u], exp[u]/scale[u], 1e-6, u + ' item')
    for i, u in enumerate(('norm', 'cmwe', 'mmGH', 'mmCU', 'microGal', 'mbar', 'cmVCU')):
        c.same(c.gt.units.bycode(i), u, 'unit code')

@harness('C07', configs=[dict(L=L, earth=e, el=el) for L in (0, 1, 5) for e in range(3) for el in (None, False)],
    thorough=[dict(L=L, earth=0, el=None) for L in (12, 60)])
def spatial_inverse(c, L, earth, el):
    """field factors are the inverse of the harmonic ones over the 4 pi sphere"""
    h, k, l = love(c, L+1)
    kw = {} if el is None else dict(include_elastic=el)
    U = c.gt.units(lmax=L, **EARTH[earth])
    H = {u: U.harmonic(h, k, l, **kw).get(u) for u in ('norm', 'cmwe', 'mmwe', 'mmGH', 'microGal')}
    S = c.gt.units(lmax=L, **EARTH[earth]).spatial(h, k, l, **kw)
    one = c.array([1.0]*(L+1))
    c.close(S.norm, one, 1e-9, 'norm')
    for u in ('cmwe', 'mmwe', 'mmGH', 'microGal'):
        c.close(H[u]*S.get(u)*4*np.pi, one, 1e-6, u)

@harness('C07', configs=[dict(earth=e) for e in range(3)])
def earth_parameters(c, earth):
    x = c.real('x', 0, 1)
    U = c.gt.units(lmax=2, **EARTH[earth])
    a, fl = EARTH[earth].get('a_axis', 6.378137e8), EARTH[earth].get('flat', 1.0/298.257223563)
    G, GM, rad, rho = consts(a, fl)
    for v, e, n in ((U.rad_e, rad, 'radius'), (U.rho_e, rho, 'density'), (U.b_axis, a*(1-fl), 'semi-minor'),
            (U.mass, GM/G, 'mass'), (U.GM, GM, 'GM'), (U.g_wmo, 980.665, 'gravity'), (U.omega, 7292115e-11, 'rotation')):
        c.close(v/e + x, 1 + x, 1e-9, n)
    for bad in ('cm', 'nope'):
        try:
            U.get(bad)
        except ValueError:
            continue
        c.same(bad, None, 'unknown unit accepted')
    for bad in (7, 12):
        try:
            U.bycode(bad)
        except ValueError:
            continue
        c.same(bad, None, 'unknown code accepted')

doc('C07', 'degrees to 5 (thorough 60), load Love numbers h in [-3,3], k in [-0.5,0.9], l in [-2,2], three Earth ellipsoids, elastic and ellipsoidal options; relative agreement 1e-6; degrees to 100')
