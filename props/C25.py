"""C25 load Love numbers"""
import io, pathlib
import numpy as np
from symx.harness import harness, doc
from props.hutil import *
from props.C22 import signed

COLS = (['l', 'hl', 'kl', 'll'], ['l', 'hl', 'll', 'kl'], ['l', 'hl', 'll', 'kl', 'nl', 'nk'], ['hl', 'l', 'll', 'kl'])
KEYS = ('hl', 'kl', 'll')

def frame(c, v, reference):
    return {'CF': lambda: (v['hl'][1] + 2*v['ll'][1])/3.0, 'CL': lambda: v['ll'][1], 'CH': lambda: v['hl'][1], 'CM': lambda: 1.0, 'CE': lambda: 0.0}[reference.upper()]()

CF = [dict(degrees=d, L=L, cols=k, header=h, ref=r, fmt=f, src=s) for d, L, k, h, r, f, s in (
    (list(range(6)), None, 0, 2, 'CE', 'tuple', 'path'), (list(range(6)), 5, 1, 0, 'CF', 'dict', 'str'), (list(range(7)), 3, 2, 1, 'CM', 'class', 'bytes'), (list(range(4)), 6, 0, 3, 'CL', 'tuple', 'path'),
    ([0, 1, 2, 4, 7, 10], None, 3, 2, 'CH', 'zip', 'path'), ([0, 1, 2, 4, 7, 10], 6, 0, 0, 'cf', 'class', 'path'), ([0, 1, 2, 5], 8, 1, 1, 'CM', 'tuple', 'path'), ([0, 1], 1, 0, 2, 'CF', 'tuple', 'path'),
    ([0, 1, 2], 0, 0, 2, 'CF', 'tuple', 'path'), (list(range(5)), 4, 0, 2, None, None, 'path'), ([0, 1, 2, 3, 4], 5, 0, 0, 'CE', 'class', 'path'), ([1, 2, 3], 3, 0, 1, 'CF', 'tuple', 'path'),
    ([0, 1, 2, 3, 'inf'], 3, 2, 1, 'CF', 'tuple', 'path'))]

@harness('C25', configs=CF, thorough=[dict(degrees=[0, 1, 2, 3, 5, 9, 20, 40], L=L, cols=k, header=1, ref=r, fmt='tuple', src='path') for L, k, r in ((40, 0, 'CF'), (35, 1, 'CM'), (60, 2, 'CH'), (None, 3, 'CL'))], mix=10, ok=lambda degrees, L, **k: 'inf' not in degrees or (L is not None and L <= 3))
def read(c, degrees, L, cols, header, ref, fmt, src):
    names = COLS[cols]
    raw = {k: signed(c, k, len(degrees), 9, 1e-4) for k in names if k != 'l'}
    f = pathlib.Path(c.tmpdir(), 'love_numbers.txt')
    with f.open('w', encoding='utf8') as o:
        for i in range(header):
            o.write(['l  h  k  l\n', '*********\n', '# 1 2 3\n'][i])
        for i, l in enumerate(degrees):
            o.write(' '.join((f'{l:>6}' if k == 'l' else f'{raw[k][i]:20.12E}'.replace('E', 'D')) for k in names) + '\n')
    kw = {} if ref is None else dict(REFERENCE=ref)
    kw.update({} if fmt is None else dict(FORMAT=fmt))
    kw.update({} if L is None else dict(LMAX=L))
    fid = {'path': lambda: f, 'str': lambda: str(f), 'bytes': lambda: io.BytesIO(f.read_bytes())}[src]()
    R = c.mod('read_love_numbers').read_love_numbers(fid, HEADER=header, COLUMNS=list(names), **kw)
    last = max(l for l in degrees if l != 'inf')
    L = last if L is None else L
    v = {}
    have = [l for l in degrees if l != 'inf']
    for k in KEYS:
        v[k] = c.zeros(L+1)
        for l in range(L+1):
            if l in have:
                v[k][l] = raw[k][have.index(l)]
            elif l < have[0]:
                v[k][l] = raw[k][0]
            elif l < last:
                i = max(j for j, d in enumerate(have) if d < l)
                w = (l - have[i])/(have[i+1] - have[i])
                v[k][l] = (1-w)*raw[k][i] + w*raw[k][i+1]
            else:
                v[k][l] = 2.0*v[k][l-1] - v[k][l-2]
    if L > 0:
        a = frame(c, v, ref or 'CE')
        for k in KEYS:
            v[k][1] = v[k][1] - a
    if fmt in ('tuple', None, 'zip'):
        if fmt == 'zip':
            R = list(R)
            c.same(len(R), L+1, 'number of degrees')
            R = tuple(c.array([x[i] for x in R]) for i in range(3))
        for k, r in zip(KEYS, R):
            c.close(r, v[k], 1e-7, k)
    else:
        for k in KEYS:
            c.close(R[k], v[k], 1e-7, k)
        c.close(R['l'], np.arange(L+1), 0, 'degrees')
        if fmt == 'class':
            c.same(int(R.lmax), L, 'maximum degree')
            c.same(len(R), L+1, 'length')
            for k, r in zip(KEYS, R.to_tuple()):
                c.close(r, v[k], 1e-7, f'tuple {k}')
            for k, r in zip(KEYS, R):
                c.close(r, v[k], 1e-7, f'iteration {k}')
            for k, r in R.to_dict().items():
                c.close(r, v[k], 1e-7, f'dictionary {k}')

@harness('C25', configs=[dict(L=L, ref=r) for L, r in ((1, 'CF'), (3, 'CM'), (2, 'CE'), (4, 'CL'), (2, 'CH'), (3, 'cf'))], mix=8)
def transform(c, L, ref):
    raw = {k: c.reals(k, L+1, -5, 5) for k in KEYS}
    Y = c.gt.love_numbers().from_dict({k: raw[k].copy() for k in KEYS})
    c.same(int(Y.lmax), L, 'maximum degree')
    c.close(Y.l, np.arange(L+1), 0, 'degrees')
    R = Y.transform(ref)
    a = frame(c, raw, ref)
    for k in KEYS:
        e = raw[k].copy()
        e[1] = e[1] - a
        c.close(R[k], e, 1e-12, k)
    c.same(R.reference, ref, 'reference')

@harness('C25', configs=[dict(model=m, L=L, ref=r, fmt=f) for m, L, r, f in ((0, 40, 'CF', 'class'), (1, 60, 'CM', 'class'), (2, 30, 'CE', 'tuple'), (3, 20, 'CF', 'dict'), (4, 20, None, 'class'), (0, 696, 'CE', 'tuple'), (1, 1024, 'CF', 'tuple'))], mix=12, ok=lambda model, L, **k: model == 1 or L <= 696)
def models(c, model, L, ref, fmt):
    """numbers of the distributed models against the columns of their files"""
    f, cols = {0: ('love_numbers', 0), 1: ('Load_Love2_CE.dat', 1), 2: ('PREM-LLNs-truncated.dat', 2), 3: ('PREMhard-LLNs-truncated.dat', 2), 4: ('PREMsoft-LLNs-truncated.dat', 2)}[model]
    raw = {}
    for line in (pathlib.Path(c.mod('utilities').__file__).parent/'data'/f).read_text().splitlines():
        x = line.replace('D', 'E').split()
        if len(x) >= 4 and x[0].isdigit():
            raw[int(x[0])] = dict(zip(COLS[cols][1:], map(float, x[1:])))
    for k in ('hl', 'kl', 'll'):
        raw.setdefault(0, dict(raw[1]))
    s = c.real('s', -2, 2)
    v = {k: np.array([raw[l][k] for l in range(L+1)]) for k in KEYS}
    a = frame(c, v, ref or 'CF')
    for k in KEYS:
        v[k] = v[k].copy()
        v[k][1] -= a
    kw = dict(LOVE_NUMBERS=model, FORMAT=fmt)
    if ref is not None:
        kw['REFERENCE'] = ref
    R = c.mod('read_love_numbers').load_love_numbers(L, **kw)
    for i, k in enumerate(KEYS):
        r = R[i] if fmt == 'tuple' else R[k]
        c.close(c.array(r)*s, c.arr(v[k])*s, 1e-9, k)
    if fmt == 'class':
        c.same((R.reference, R.filename, R.model[:4]), (ref or 'CF', f, 'PREM'), 'attributes')

doc('C25', 'all Love numbers of up to 4 decades, listed degrees (complete, with gaps, ending with infinite degree), truncation, interpolation and extrapolation to degree 10 (thorough 60), every frame, column order, header length and output format; the five distributed tables as shipped')
