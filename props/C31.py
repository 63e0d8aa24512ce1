"""C31 glacial isostatic adjustment models"""
import numpy as np
from symx.harness import harness, doc
from props.hutil import *
from props.C22 import path

def num(c, name, lo=1e-3, hi=50.0, neg=False):
    return c.real(name, -hi, -lo) if neg else c.real(name, lo, hi)

def coefs(c, L, lo, hi, zero=True):
    v = {}
    for l in range(L+1):
        for m in range(l+1):
            v['clm', l, m] = num(c, f'c{l},{m}', lo, hi, (l+m) % 2)
            v['slm', l, m] = num(c, f's{l},{m}', lo, hi, (l+m) % 3 == 0) if m or not zero else 0.0
    return v

def write(c, gia, L, v):
    """file of a model; returns its path and the title of the model"""
    name, title = {'IJ05-R2': ('Stokes.R2_65_.2_1.5_L120', 'IJ05_R2_65_.2_1.5'), 'W12a': ('grate_B.clm', 'W12a_Best'), 'SM09': ('grate_120p55.clm', 'SM09_Huy2_120_.5_5'), 'ICE6G': ('Stokes_G_Rot_60_I6_A_VM5a', 'ICE6G_VM5a'), 'Wu10': ('translation_L60', 'Wu_2010'),
        'AW13-ICE6G': ('stokes.ice6g.VM5a_cm.txt', 'AW13_ice6g_VM5a_cm'), 'AW13-IJ05': ('stokes.R2_65_.2_1.5_ANT', 'AW13_IJ05_R2_65_.2_1.5'), 'Caron': ('GIA_maps_Caron_et_al_2018.txt', 'Caron_expt'), 'ICE6G-D': ('ICE-6G_High_Res_Stokes_trend.txt', 'ICE6G-D_High_Res')}[gia]
    f = path(c, name)
    F = lambda x: f'{x:20.12E}'
    G = lambda x: f'{x:14.8f}'
    out = []
    pairs = [(l, m) for l in range(L+1) for m in range(l+1)]
    if gia == 'ICE6G':
        for l in range(L+1):
            for m in range(0, l+1, 2):
                row = [f'{l:4d}'] if m == 0 else ['    ']
                for k in (m, m+1):
                    if k <= l:
                        row += [G(v['clm', l, k]), G(v['slm', l, k])]
                out.append(' '.join(row))
    elif gia == 'Wu10':
        out.append('mm of geoid')
        for l, m in pairs[1:]:
            out += [F(v['clm', l, m])] + ([F(v['slm', l, m])] if m else [])
    elif gia == 'Caron':
        out += ['header', 'GIA', 'l m value', '-----']
        for l in range(L+1):
            out += [f'{l} {-m} {F(v["slm", l, m])}' for m in range(l, 0, -1)]
            out += [f'{l} {m} {F(v["clm", l, m])}' for m in range(l+1)]
    elif gia == 'ICE6G-D':
        out += ['Title of the file', 'GRACE Approximation for degrees 0 to 2', 'l m']
        del out[2]
        out += [f'{l:4d} {m:4d} {F(v["clm", l, m])} {F(v["slm", l, m])}' for l, m in pairs if l <= 2]
        out += ['Absolute values', ' 2 0 7.0E-11 8.0E-11', 'GRACE Approximation/Absolute Sea-level Values for degrees > 2']
        out += [f'{l:4d} {m:4d} {F(v["clm", l, m])} {F(v["slm", l, m])}'.replace('E', 'D') for l, m in pairs if l > 2]
    else:
        out += ['Stokes coefficients'] if gia.startswith('AW13') else []
        E = (lambda x: G(x)) if gia == 'IJ05-R2' else (lambda x: F(x).replace('E', 'D'))
        out += [f'{l:4d} {m:4d} {E(v["clm", l, m])} {E(v["slm", l, m])}' for l, m in pairs]
        if gia in ('W12a', 'AW13-IJ05'):
            out.append('')
    f.write_text('\n'.join(out) + '\n')
    return f, title

SCALE = {'IJ05-R2': 1e-11, 'ICE6G': 1e-11, 'Wu10': 1/6.371e9}
MODELS = ('IJ05-R2', 'W12a', 'SM09', 'ICE6G', 'Wu10', 'AW13-ICE6G', 'AW13-IJ05', 'Caron', 'ICE6G-D')

@harness('C31', configs=[dict(gia=g, LF=lf, L=L, M=M) for g, lf, L, M in [(g, 5, 5, None) for g in MODELS] + [(g, 5, 3, 2) for g in MODELS] + [(g, 4, 6, 4) for g in MODELS if g not in ('ICE6G', 'Wu10')] + [('ICE6G', 4, 4, 0), ('Wu10', 6, 4, 1), ('ICE6G-D', 4, 2, None), ('ICE6G-D', 4, 1, None)]] + [dict(gia=g, LF=60, L=60, M=None) for g in MODELS] + [dict(gia='IJ05-R2', LF=105, L=102, M=None)],
    thorough=[dict(gia=g, LF=16, L=L, M=M) for g in MODELS for L, M in ((16, 9), (11, None))] + [dict(gia=g, LF=120, L=105, M=60) for g in MODELS], mix=20, ok=lambda LF, L, M, **k: LF >= L and L <= 6)
def models(c, gia, LF, L, M):
    small = gia not in SCALE
    v = coefs(c, LF, 1e-14 if small else 1e-3, 1e-9 if small else 50.0)
    f, title = write(c, gia, LF, v)
    kw = {} if M is None else dict(MMAX=M)
    R = c.mod('read_GIA_model').read_GIA_model(f, GIA=gia, LMAX=L, **kw)
    M = L if M is None else M
    s = SCALE.get(gia, 1.0)*1e10
    for k in ('clm', 'slm'):
        e = c.zeros((L+1, M+1))
        for l in range(L+1):
            for m in range(min(l, M)+1):
                if l <= LF and not (gia == 'Wu10' and l == 0):
                    e[l, m] = v[k, l, m]*s
        c.close(c.array(R[k])*1e10, e, 1e-8, k)
    c.close(R['l'], np.arange(L+1), 0, 'degrees')
    c.close(R['m'], np.arange(M+1), 0, 'orders')
    c.same(R['title'], title, 'title')

@harness('C31', configs=[dict(gia=g, L=L, M=M, upper=u) for g, L, M, u in (('AW13-ICE6G', 4, None, False), ('IJ05-R2', 4, 2, False), ('Caron', 3, 2, True), ('ICE6G-D', 5, 3, True))], mix=16)
def objects(c, gia, L, M, upper):
    small = gia not in SCALE
    v = coefs(c, L, 1e-14 if small else 1e-3, 1e-9 if small else 50.0)
    f, title = write(c, gia, L, v)
    kw = {} if M is None else {'MMAX' if upper else 'mmax': M}
    g = c.mod('read_GIA_model').gia(lmax=L).from_GIA(f, GIA=gia, **kw)
    M = L if M is None else M
    for k in ('clm', 'slm'):
        e = c.zeros((L+1, M+1))
        for l in range(L+1):
            for m in range(min(l, M)+1):
                e[l, m] = v[k, l, m]*SCALE.get(gia, 1.0)*1e10
        c.close(getattr(g, k)*1e10, e, 1e-8, k)
    c.same((int(g.lmax), int(g.mmax), g.title), (L, M, title), 'dimensions and title')
    c.close(g.l, np.arange(L+1), 0, 'degrees')
    c.close(g.m, np.arange(M+1), 0, 'orders')

@harness('C31', configs=[dict(gia=g, form=fm, L=L, M=M, L2=L2, M2=M2) for g, fm, L, M, L2, M2 in (('AW13-ICE6G', 'ascii', 4, None, 4, None), ('SM09', 'netCDF4', 4, None, 3, 2), ('ICE6G', 'HDF5', 3, None, 3, 1), ('Caron', 'netCDF4', 3, 2, 3, None), ('W12a', 'ascii', 4, None, 2, 2))], mix=16, ok=lambda L, M, L2, M2, **k: L2 <= L and (L2 if M2 is None else M2) <= (L if M is None else M))
def reformatted(c, gia, form, L, M, L2, M2):
    """models written to a file and read back"""
    small = gia not in SCALE
    v = coefs(c, L, 1e-14 if small else 1e-3, 1e-9 if small else 50.0)
    f, title = write(c, gia, L, v)
    rd = c.mod('read_GIA_model').read_GIA_model
    A = rd(f, GIA=gia, LMAX=L, DATAFORM=form, **({} if M is None else dict(MMAX=M)))
    out = f.with_name(f'stokes_{title}_L{L}.' + dict(ascii='txt', netCDF4='nc', HDF5='H5')[form])
    c.same(out.exists(), True, 'output file')
    R = rd(out, GIA=form, LMAX=L2, **({} if M2 is None else dict(MMAX=M2)))
    M2 = L2 if M2 is None else M2
    for k in ('clm', 'slm'):
        e = c.zeros((L2+1, M2+1))
        for l in range(L2+1):
            for m in range(min(l, M2)+1):
                e[l, m] = v[k, l, m]*SCALE.get(gia, 1.0)*1e10
        c.close(c.array(R[k])*1e10, e, 1e-8, k)
    c.close(R['l'], np.arange(L2+1), 0, 'degrees')
    c.close(R['m'], np.arange(M2+1), 0, 'orders')
    c.same(R['title'] if form != 'ascii' else title, title, 'title')

@harness('C31', configs=[dict(L=L) for L in (None, 5)])
def none(c, L):
    c.real('unused')
    R = c.mod('read_GIA_model').read_GIA_model(None, **({} if L is None else dict(LMAX=L)))
    n = 61 if L is None else L + 1
    c.close(R['clm'], c.zeros((n, n)), 0, 'zero')
    c.close(R['slm'], c.zeros((n, n)), 0, 'zero')

doc('C31', 'every coefficient of files of each model to degree 60 (102 for one), truncation in degree and order, the three output formats')
