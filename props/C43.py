"""C43 gravity models in gfc format and spherical harmonic model files as harmonics"""
import gzip, pathlib
import numpy as np
from symx.harness import harness, doc
from props.hutil import *
from props.C22 import path
from props.C29 import YAML, GFC, PLAIN, decimal, pole

class Stub:
    """reader of ICGEM models of the geoid toolkit"""
    def __init__(self, c, C, S, tide):
        self.c, self.C, self.S, self.tide, self.calls = c, C, S, tide, []
    def read_ICGEM_harmonics(self, f, TIDE=None, FLAG='gfc', ZIP=False, **kw):
        self.calls.append((pathlib.Path(f).name, TIDE, FLAG, bool(ZIP)))
        L = self.C.shape[0] - 1
        return dict(clm=self.C.copy(), slm=self.S.copy(), eclm=self.C*0.0, eslm=self.S*0.0, l=np.arange(L+1), m=np.arange(L+1), modelname='COSTG', earth_gravity_constant='3.9860044150e+14', radius='6.3781366000e+06', max_degree=str(L), errors='formal', norm='fully_normalized', tide_system=self.tide)

def stub(c, L, tide='zero_tide'):
    C, S = tri(c, 'y', L, L)
    g = Stub(c, C, S, tide)
    for n in ('harmonics', 'read_gfc_harmonics'):
        c.mod(n).geoidtk = g
    return g

@harness('C43', configs=[dict(L=3, tide=None, how='method'), dict(L=2, tide='tide_free', how='method'), dict(L=4, tide='mean_tide', how='file'), dict(L=1, tide=None, how='file'), dict(L=60, tide='zero_tide', how='method')], mix=12)
def static(c, L, tide, how):
    """models without dates"""
    g = stub(c, L, tide or 'tide_free')
    f = path(c, 'GGM05C.gfc')
    f.write_text(GFC)
    if how == 'file':
        Y = c.gt.harmonics().from_file(f, format='gfc', date=False, tide=tide)
    else:
        Y = c.gt.harmonics().from_gfc(f, **({} if tide is None else dict(tide=tide)))
    c.same(g.calls, [('GGM05C.gfc', tide, 'gfc', False)], 'tide system read')
    c.close(Y.clm, g.C, 0, 'clm')
    c.close(Y.slm, g.S, 0, 'slm')
    c.same((int(Y.lmax), int(Y.mmax), Y.tide), (L, L, tide or 'tide_free'), 'degrees and tide system')
    c.close(Y.l, np.arange(L+1), 0, 'degrees')
    c.close(Y.m, np.arange(L+1), 0, 'orders')
    c.close(Y.GM*1e-14, 3.986004415, 1e-12, 'GM')
    c.close(Y.R*1e-6, 6.3781366, 1e-12, 'radius')
    Y.clm[1, 0] = 5.0
    c.close(g.C, g.C, 0, 'model')

NAMES = {'itsg18': ('ITSG-Grace2018_n120_{y}-{m:02d}.gfc', False), 'itsg14': ('ITSG-Grace2014_{y}-{m:02d}.gfc', False), 'itsgop': ('ITSG-Grace_operational_n96_{y}-{m:02d}.gfc', False), 'dealiasing': ('model_dealiasing_n180_{y}-{m:02d}.gfc', False), 'obp': ('model_oceanBottomPressure_{y}-{m:02d}.gfc', False),
    'aod': ('AOD1B_RL06_atmosphere_n180_{y}-{m:02d}.gfc', False), 'swarm': ('SW_OPER_EGF_SHA_2__{y}{m:02d}01T000000_{y}{m:02d}{d:02d}T235959_0101.ZIP', True), 'swarmgfc': ('SW_OPER_EGF_SHA_2__{y}{m:02d}01T000000_{y}{m:02d}{d:02d}T235959_0101.gfc', False),
    'model': ('GAA_Swarm_0103_{m:02d}_{y}.gfc', False), 'modelzip': ('GAD_Swarm_0103_{m:02d}_{y}.ZIP', True)}

@harness('C43', exact=True, configs=[dict(name=n, m=m, how=h) for n, m, h in (('itsg18', 1, 'read'), ('itsg18', 6, 'object'), ('itsg14', 2, 'read'), ('itsgop', 12, 'read'), ('dealiasing', 3, 'object'), ('obp', 2, 'read'), ('aod', 10, 'read'), ('swarm', 2, 'read'), ('swarm', 11, 'object'), ('swarmgfc', 4, 'read'), ('model', 2, 'read'), ('model', 7, 'object'), ('modelzip', 12, 'read'))], mix=8)
def dated(c, name, m, how):
    """monthly models of any year"""
    pat, z = NAMES[name]
    # years of the files are concrete where dates are parsed by dateutil
    y = c.int('year', 2002, 2023)
    if name.startswith('swarm') or how == 'object':
        y = next(v for v in range(2002, 2024) if v == 2023 or c.pick(y == v))
    leap = c.pick((y % 4 == 0))
    d = [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    g = stub(c, 2)
    f = path(c, pat.format(y=y if isinstance(y, int) else c.digits(y, 4), m=m, d=d[m-1]))
    f.write_text(GFC)
    n, a = sum(d), sum(d[:m-1]) + 1
    t = y + (a + a + d[m-1] - 1.0/86400)/2.0/n
    if how == 'object':
        Y = c.gt.harmonics().from_gfc(f, date=True, tide='tide_free')
        c.close(Y.clm, g.C, 0, 'clm')
        c.close(Y.slm, g.S, 0, 'slm')
        c.close(Y.time, t, 1e-7, 'date')
        c.close(Y.month, 12*(y - 2002) + m, 0, 'month')
        c.same((int(Y.lmax), int(Y.mmax), Y.tide), (2, 2, 'zero_tide'), 'degrees and tide system')
        c.same(g.calls, [(f.name, 'tide_free', 'gfc', z)], 'tide system and compression read')
        return
    R = c.gt.read_gfc_harmonics(f, TIDE='mean_tide', FLAG='gfct')
    c.same(g.calls, [(f.name, 'mean_tide', 'gfct', z)], 'tide system, flag and compression read')
    c.close(R['clm'], g.C, 0, 'clm')
    c.close(R['slm'], g.S, 0, 'slm')
    c.close(R['time'], t, 1e-7, 'date')
    # Julian day of the first of January
    j = 365*(y - 1) + (y - 1)//4 - (y - 1)//100 + (y - 1)//400 + 1721425.5
    c.close(c.array(R['start']).reshape(-1), c.array([j + a - 1]), 1e-6, 'start')
    c.close(c.array(R['end']).reshape(-1), c.array([j + a - 1 + d[m-1] - 1.0/86400]), 1e-6, 'end')

SHM = [dict(name=n, LF=lf, L=L, M=M, pole_tide=p, how=h) for n, lf, L, M, p, h in (
    ('GSM-2_2005032-2005059_GRAC_UTCSR_BA01_0600', 4, 3, None, False, 'file'), ('GSM-2_2018152-2018181_GRFO_JPLEM_BA01_0600.gz', 4, 4, None, True, 'file'), ('GSM-2_2009001-2009031_GRAC_GFZOP_BA01_0600', 4, 4, 2, True, 'method'), ('GAD-2_2012335-2012366_GRAC_UTCSR_BC01_0600', 3, 5, 3, True, 'file'),
    ('GSM-2_2010335-2010365_0021_UTCSR_0060_0005', 3, 3, None, False, 'method'))]

@harness('C43', configs=SHM, mix=12)
def models(c, name, LF, L, M, pole_tide, how):
    """spherical harmonic models of the processing centers"""
    v, out = {}, (YAML if name.count('GR') else PLAIN).split('\n')
    for m in range(LF+1):
        for l in range(max(m, 2), LF+1):
            for k in ('clm', 'slm'):
                v[k, l, m] = 0.0 if (m == 0 and k == 'slm') else c.real(f'{k}{l},{m}', 1e-14, 1e-6)
            out.append(f'GRCOF2 {l:5d} {m:5d} {v["clm", l, m]:21.14E} {v["slm", l, m]:21.14E} 1.0000E-12 1.0000E-12 20050201.0000 20050301.0000 yyyy')
    data = ('\n'.join(out) + '\n').encode()
    f = path(c, name)
    f.write_bytes(gzip.compress(data) if name.endswith('gz') else data)
    kw = {} if M is None else dict(MMAX=M)
    if pole_tide:
        kw['POLE_TIDE'] = True
    H = c.gt.harmonics(lmax=L)
    Y = H.from_file(f, format='SHM', **kw) if how == 'file' else H.from_SHM(f, **kw)
    y0, d0, d1 = int(name[6:10]), int(name[10:13]), int(name[18:21])
    t = decimal(y0, d0, y0, d1)
    M = L if M is None else M
    C, S = c.zeros((L+1, M+1)), c.zeros((L+1, M+1))
    C[0, 0] = 1.0
    for (k, l, m), x in v.items():
        if l <= L and m <= M:
            (C if k == 'clm' else S)[l, m] = x
    if pole_tide and name.startswith('GSM'):
        x, y = pole([p for p in ('UTCSR', 'JPLEM', 'GFZOP') if p in name][0], t)
        C[2, 1], S[2, 1] = C[2, 1] - x, S[2, 1] - y
    c.close(Y.clm*1e6, C*1e6, 1e-11, 'clm')
    c.close(Y.slm*1e6, S*1e6, 1e-11, 'slm')
    c.close(Y.time, t, 1e-9, 'date')
    c.close(Y.month, int(np.floor(12*(t - 2002.0))) + 1, 0, 'month')
    c.same((int(Y.lmax), int(Y.mmax)), (L, M), 'maximum degree and order')
    c.close(Y.l, np.arange(L+1), 0, 'degrees')
    c.close(Y.m, np.arange(M+1), 0, 'orders')
    # usable as any other object
    Z = Y.copy().truncate(2, mmax=1)
    c.close(Z.clm*1e6, C[:3, :2]*1e6, 1e-11, 'truncation')
    c.close(Z.slm*1e6, S[:3, :2]*1e6, 1e-11, 'truncation')

doc('C43', 'every coefficient of models to degree 4, listed formats and processing centres; any year for monthly gfc models of listed months', ['geoid_toolkit is not installed: its reader of gfc files is a stand-in returning free coefficients'])
