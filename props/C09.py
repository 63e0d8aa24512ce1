"""C09 Gaussian averaging weights"""
import numpy as np
from symx.harness import harness, doc
from props.oracles import gauss_quadrature

@harness('C09', configs=[dict(hw=hw, L=L) for hw in (100.0, 250.0, 400.0, 1000.0, 3000.0) for L in (0, 1, 2, 12, 40)] + [dict(hw=hw, L=96) for hw in (100.0, 200.0, 300.0)],
    thorough=[dict(hw=hw, L=60) for hw in (150.0, 300.0, 500.0, 800.0, 2000.0)])
def any_cutoff(c, hw, L):
    """Legendre coefficients of the Gaussian until they fall below the cutoff"""
    cut = c.real('cutoff', 1e-6, 0.2)
    exact = gauss_quadrature(hw, L)
    for e in exact[2:]:
        c.assume((cut - e > 1e-9) | (cut - e < -1e-9))
    w = c.gt.gauss_weights(hw, L, CUTOFF=cut)
    below = False
    for l in range(L+1):
        if l >= 2 and (below or c.pick(cut > exact[l])):
            below = True
        c.close(w[l], cut if below else exact[l], 1e-9, f'degree {l}')

@harness('C09', configs=[dict(L=L) for L in (0, 1, 5, 60)])
def no_smoothing(c, L):
    """a radius below the cutoff is no smoothing at all"""
    cut = c.real('cutoff', 1e-9, 1)
    hw = c.real('hw', 0, 1)
    c.assume(hw < cut)
    w = c.gt.gauss_weights(hw, L, CUTOFF=cut)
    c.close(2*np.pi*w, c.array([1.0]*(L+1)), 1e-12, 'unit weights')

@harness('C09', configs=[dict(L=L, lo=lo, hi=hi) for L in (1, 2, 4) for lo, hi in ((600.0, 1000.0), (1500.0, 4000.0))])
def any_radius(c, L, lo, hi):
    hw = c.real('hw', lo, hi)
    w = c.gt.gauss_weights(hw, L, CUTOFF=1e-10)
    b = np.log(2.0)/(1.0 - c.np.cos(hw/6371.0))
    e = c.np.exp(-2.0*b)
    ib = (1.0 - c.np.cos(hw/6371.0))/np.log(2.0)
    r = [1.0, (1 + e)/(1 - e) - ib]
    cut = False
    for l in range(2, L+1):
        r.append((1 - 2*l)*ib*r[-1] + r[-2])
        cut = cut or c.pick(w[l] <= 1e-10)
        if cut:
            c.close(w[l]*1e10, 1.0, 1e-6, f'degree {l} at the cutoff')
        else:
            c.close(2*np.pi*w[l], r[l], 1e-9, f'degree {l}')
    c.close(2*np.pi*w[0], 1.0, 1e-12, 'degree 0')
    c.close(2*np.pi*w[1], r[1], 1e-9, 'degree 1')

doc('C09', 'any cutoff in [1e-6,0.2] for ten radii and degrees to 96, at least 1e-9 from a weight; any radius in [600,4000] km for degrees to 4')
