"""
numpy for symbolic values: SymArray (ndarray subclass of dtype object whose
elements are Sym/SymBool/python numbers), dispatch of ufuncs and functions,
and the shim module that replaces ``numpy`` while the code under test is
imported.
"""
import builtins
import functools
import math
import sys
import types
from fractions import Fraction
import numpy as np
from . import core
from .core import Sym, SymBool, E, EngineError, is_num, norm_num

RF, RI = float, int
rnd = np.ndarray

# ------------------------------------------------------------------ kinds
_DT = {'f': np.dtype('f8'), 'i': np.dtype('i8'), 'b': np.dtype('?'),
    'c': np.dtype('c16'), 'O': np.dtype('O')}

def real_dtype(k):
    return _DT[k]

def kind_of_dtype(dtype):
    """logical kind of a dtype specification"""
    if dtype is None:
        return 'f'
    if dtype in (core.REAL_FLOAT,) or dtype is symfloat:
        return 'f'
    if dtype is core.REAL_INT or dtype is symint:
        return 'i'
    if dtype is bool:
        return 'b'
    if dtype is complex:
        return 'c'
    if isinstance(dtype, type) and isinstance(dtype, ShimType):
        dtype = dtype._real
    k = np.dtype(dtype).kind
    return {'u': 'i'}.get(k, k)

def kind_of(x):
    if isinstance(x, SymArray):
        return x._k
    if isinstance(x, rnd):
        return {'u': 'i'}.get(x.dtype.kind, x.dtype.kind)
    if isinstance(x, SymBool) or isinstance(x, (bool, np.bool_)):
        return 'b'
    if isinstance(x, Sym):
        return 'c' if x.iscomplex else ('i' if x.isint else 'f')
    if isinstance(x, (complex, np.complexfloating)):
        return 'c'
    if isinstance(x, (RI, np.integer)):
        return 'i'
    if isinstance(x, (RF, np.floating, Fraction)):
        return 'f'
    if isinstance(x, (list, tuple)):
        ks = [kind_of(y) for y in x]
        return functools.reduce(_promote, ks, 'b') if ks else 'f'
    return 'O'

_ORD = 'bifcO'
def _promote(a, b):
    ia = _ORD.index(a) if a in _ORD else 4
    ib = _ORD.index(b) if b in _ORD else 4
    return _ORD[max(ia, ib)]

def cast_scalar(x, k):
    if k == 'i':
        if isinstance(x, (SymBool,)):
            return core.bool_to_num(x)
        if isinstance(x, Sym):
            return core.trunc(x)
        if isinstance(x, (bool, np.bool_)):
            return RI(x)
        if isinstance(x, (str, bytes)):
            return symint(x)
        x = norm_num(x)
        if core.is_nan(x) or core.is_inf(x):
            return -9223372036854775808
        if isinstance(x, complex):
            x = x.real
        return math.trunc(x)
    if k == 'f':
        if isinstance(x, SymBool):
            return core.bool_to_num(x)
        if isinstance(x, Sym):
            return x.real if x.iscomplex else x
        if isinstance(x, (str, bytes)):
            return symfloat(x)
        x = norm_num(x)
        if isinstance(x, complex):
            return x.real
        return x if isinstance(x, Fraction) else RF(x)
    if k == 'b':
        if isinstance(x, (Sym, SymBool)):
            return core.tobool(x)
        return bool(x)
    if k == 'c':
        if isinstance(x, (Sym, SymBool)):
            return x
        return complex(x)
    return x

def has_sym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, SymArray):
        for e in x.flat_elems():
            if isinstance(e, (Sym, SymBool)):
                return True
        return False
    if isinstance(x, rnd):
        return x.dtype.kind == 'O' and any(has_sym(e) for e in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return False

def base(x):
    """view as plain ndarray"""
    return x.view(rnd) if isinstance(x, SymArray) else x

class SymArray(np.ndarray):
    """ndarray of dtype object with a logical kind"""
    def __array_finalize__(self, obj):
        self._k = getattr(obj, '_k', 'f')

    def flat_elems(self):
        return rnd.ravel(self.view(rnd)).tolist() if self.ndim else [self.view(rnd).item()]

    # numpy reads the real dtype in C; python code sees the logical one
    @property
    def dtype(self):
        return _DT.get(self._k, _DT['O'])

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return ufunc_dispatch(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        return function_dispatch(func, args, kwargs)

    # ---- indexing
    def _index(self, key):
        if isinstance(key, tuple):
            return tuple(_idx(k) for k in key)
        return _idx(key)

    def __getitem__(self, key):
        if isinstance(key, str):
            raise IndexError('string index')
        r = rnd.__getitem__(self.view(rnd), self._index(key))
        if isinstance(r, rnd):
            r = r.view(SymArray)
            r._k = self._k
        elif not E.exact:
            # scalars of an array have the methods of numpy scalars
            if type(r) is RF:
                return np.float64(r)
            if type(r) is RI:
                return np.int64(r) if -2**63 <= r < 2**63 else r
        return r

    def __setitem__(self, key, value):
        m = _symbolic_mask(key, self)
        if m is not None and not (isinstance(value, (rnd, list, tuple)) and np.ndim(value)):
            # a[mask] = v with a symbolic mask: merge instead of splitting
            sv = cast_scalar(value, self._k)
            b = self.view(rnd)
            if m.shape == self.shape:
                for i in np.ndindex(self.shape):
                    b[i] = core.ite(m[i], sv, b[i])
                return
        k = self._k
        if isinstance(value, rnd) and value.dtype.kind in 'biufc' and not isinstance(value, SymArray):
            vk = {'u': 'i'}.get(value.dtype.kind, value.dtype.kind)
            v = value.astype(object)
        elif isinstance(value, rnd):
            vk = getattr(value, '_k', 'O')
            v = base(value)
        elif isinstance(value, (Sym, SymBool)) or is_num(value) or isinstance(value, (str, bytes)):
            vk = None
            v = cast_scalar(value, k) if k in 'ifb' else value
        else:
            a = sarray(value)
            vk, v = a._k, base(a)
        if vk is not None and vk != k and k in 'ifb':
            if v.dtype.kind == 'O':
                v = np.frompyfunc(lambda x: cast_scalar(x, k), 1, 1)(v)
                if not isinstance(v, rnd):
                    pass
        if isinstance(v, rnd) and v.ndim == 0:
            v = v.item()
        ix = self._index(key)
        if isinstance(v, rnd) and k in 'ifbc' and self.ndim and not isinstance(rnd.__getitem__(self.view(rnd), ix), rnd):
            raise ValueError('setting an array element with a sequence.')
        rnd.__setitem__(self.view(rnd), ix, v)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.shape[0]):
            yield self[i]

    def __bool__(self):
        if self.size == 1:
            return bool(core.tobool(self.view(rnd).item()))
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one '
            'element is ambiguous. Use a.any() or a.all()')

    def __index__(self):
        if self.ndim == 0:
            return self.view(rnd).item().__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __float__(self):
        if self.ndim == 0:
            return RF(self.view(rnd).item())
        raise TypeError('only 0-dimensional arrays can be converted to Python scalars')

    def __int__(self):
        if self.ndim == 0:
            return RI(self.view(rnd).item())
        raise TypeError('only 0-dimensional arrays can be converted to Python scalars')

    def __format__(self, spec):
        if self.ndim == 0:
            return format(self.view(rnd).item(), spec)
        return object.__format__(self, spec)

    def __deepcopy__(self, memo):
        return self.copy()
    def __copy__(self):
        return self.copy()

    # ---- methods
    def copy(self, *a, **k):
        r = rnd.copy(self.view(rnd)).view(SymArray)
        r._k = self._k
        return r

    def astype(self, dtype, *a, **kw):
        k = kind_of_dtype(dtype)
        if k == 'O':
            return self.copy()
        if k in 'SU':
            raise EngineError('astype(str)')
        return cast_array(self, k)

    def item(self, *a):
        return rnd.item(self.view(rnd), *a)

    def tolist(self):
        return rnd.tolist(self.view(rnd))

    def sum(self, axis=None, dtype=None, out=None, **kw):
        return np.sum(self, axis=axis, **kw)
    def prod(self, axis=None, dtype=None, out=None, **kw):
        return np.prod(self, axis=axis, **kw)
    def mean(self, axis=None, dtype=None, out=None, **kw):
        return _mean(self, axis=axis, **kw)
    def std(self, axis=None, dtype=None, out=None, **kw):
        return _std(self, axis=axis, **kw)
    def var(self, axis=None, dtype=None, out=None, **kw):
        return _var(self, axis=axis, **kw)
    def max(self, axis=None, out=None, **kw):
        return np.max(self, axis=axis, **kw)
    def min(self, axis=None, out=None, **kw):
        return np.min(self, axis=axis, **kw)
    def ptp(self, axis=None, **kw):
        return self.max(axis=axis, **kw) - self.min(axis=axis, **kw)
    def any(self, axis=None, out=None, **kw):
        return _any(self, axis=axis, **kw)
    def all(self, axis=None, out=None, **kw):
        return _all(self, axis=axis, **kw)
    def argmax(self, axis=None, out=None, **kw):
        return _argmax(self, axis)
    def argmin(self, axis=None, out=None, **kw):
        return _argmin(self, axis)
    def argsort(self, axis=-1, **kw):
        return _argsort(self, axis)
    def sort(self, axis=-1, **kw):
        self[...] = _sort(self, axis)
    def nonzero(self):
        return _nonzero(self)
    def dot(self, b, out=None):
        return _dot(self, b)
    def round(self, decimals=0, out=None):
        return _round(self, decimals)
    def clip(self, min=None, max=None, out=None, **kw):
        return np.clip(self, min, max)
    def cumsum(self, axis=None, dtype=None, out=None):
        return np.cumsum(self, axis=axis)
    def conj(self):
        return np.conjugate(self)
    conjugate = conj
    def fill(self, v):
        self[...] = v
    def take(self, indices, axis=None, **kw):
        return np.take(self, indices, axis=axis)
    def repeat(self, n, axis=None):
        return np.repeat(self, n, axis=axis)
    def searchsorted(self, v, side='left', sorter=None):
        return np.searchsorted(self, v, side=side)
    def trace(self, *a, **k):
        return np.trace(self, *a, **k)
    def tobytes(self, *a, **k):
        raise EngineError('tobytes of symbolic array')

    @property
    def real(self):
        f = lambda x: x.real if not isinstance(x, SymBool) else core.bool_to_num(x)
        r = wrap(np.frompyfunc(f, 1, 1)(self.view(rnd)), 'f' if self._k == 'c' else self._k)
        return r
    @real.setter
    def real(self, v):
        self[...] = sarray(v) + 1j*self.imag
    @property
    def imag(self):
        f = lambda x: x.imag if not isinstance(x, SymBool) else 0
        return wrap(np.frompyfunc(f, 1, 1)(self.view(rnd)), 'f' if self._k == 'c' else self._k)
    @imag.setter
    def imag(self, v):
        self[...] = self.real + 1j*sarray(v)

def cast_array(a, k):
    a = sarray(a)
    if k not in 'ifbc':
        return a.copy()
    r = np.frompyfunc(lambda x: cast_scalar(x, k), 1, 1)(a.view(rnd))
    if not isinstance(r, rnd) or r.ndim == 0:
        v = r if not isinstance(r, rnd) else r.item()
        r = np.empty((), dtype=object)
        r[()] = v
    r = r.view(SymArray)
    r._k = k
    return r

def wrap(r, k):
    """result of an object operation -> SymArray or scalar"""
    if isinstance(r, rnd):
        if r.ndim == 0:
            return r.view(rnd).item()
        if r.dtype.kind != 'O':
            return r
        r = r.view(SymArray)
        r._k = k
        return r
    return r

def sarray(x, k=None):
    """anything array-like -> SymArray"""
    if isinstance(x, SymArray):
        return x if k is None or k == x._k else cast_array(x, k)
    if isinstance(x, rnd):
        kk = {'u': 'i'}.get(x.dtype.kind, x.dtype.kind)
        r = x.astype(object).view(SymArray)
        r._k = kk if kk != 'O' else _guess(r)
        return r if k is None or k == r._k else cast_array(r, k)
    if isinstance(x, (Sym, SymBool)):
        r = np.empty((), dtype=object)
        r[()] = x
        r = r.view(SymArray)
        r._k = kind_of(x)
        return r if k is None or k == r._k else cast_array(r, k)
    if isinstance(x, (list, tuple, range)):
        kk = kind_of(list(x))
        x = [list(base(y)) if isinstance(y, SymArray) and y.ndim else y for y in x]
        a = _nested(x)
    else:
        a = np.array(x)
        kk = a.dtype.kind
        a = a.astype(object)
    r = a.view(SymArray)
    r._k = kk if kk in 'bifc' else _guess(r)
    return r if k is None or k == r._k else cast_array(r, k)

def _nested(x):
    """object array from nested lists without numpy probing the elements"""
    def shape(y):
        if isinstance(y, rnd):
            return y.shape
        if isinstance(y, (list, tuple, range)):
            if len(y) == 0:
                return (0,)
            s = [shape(z) for z in y]
            if any(t != s[0] for t in s):
                raise ValueError('setting an array element with a sequence. '
                    'The requested array has an inhomogeneous shape')
            return (len(y),) + s[0]
        return ()
    sh = shape(x)
    out = np.empty(sh, dtype=object)
    def fill(o, y):
        if isinstance(y, rnd):
            o[...] = base(y) if y.dtype.kind == 'O' else y.astype(object)
            return
        for i, z in enumerate(y):
            if isinstance(z, (list, tuple, range, rnd)) and not (isinstance(z, rnd) and z.ndim == 0):
                fill(o[i], z)
            else:
                o[i] = z.item() if isinstance(z, rnd) else (z.item() if isinstance(z, np.generic) else z)
    fill(out, x)
    return out

def _guess(r):
    k = 'b'
    for e in r.flat_elems():
        k = _promote(k, kind_of(e))
    return k if r.size else 'f'

# ------------------------------------------------------------------ indices
def _idx(k):
    if isinstance(k, SymArray):
        if k._k == 'b':
            return np.array([bool(core.tobool(e)) for e in k.flat_elems()],
                dtype=bool).reshape(k.shape)
        if k._k == 'i' or all(isinstance(e, RI) or (isinstance(e, Sym) and e.isint) for e in k.flat_elems()):
            return np.array([e.__index__() for e in k.flat_elems()],
                dtype=np.int64).reshape(k.shape)
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    if isinstance(k, Sym):
        return k.__index__()
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, slice):
        f = lambda v: v.__index__() if isinstance(v, (Sym, SymArray)) else v
        return slice(f(k.start), f(k.stop), f(k.step))
    if isinstance(k, list) and has_sym(k):
        return _idx(sarray(k))
    return k

def _symbolic_mask(key, arr):
    if isinstance(key, SymArray) and key._k == 'b' and key.shape == arr.shape and \
            any(isinstance(e, SymBool) for e in key.flat_elems()):
        return key.view(rnd)
    return None

# ------------------------------------------------------------------ ufuncs
def _logical(f):
    def g(a, b):
        return f(core.tobool(a), core.tobool(b))
    return g

def _isnan(x):
    return False if isinstance(x, (Sym, SymBool)) else core.is_nan(norm_num(x))
def _isinf(x):
    return False if isinstance(x, (Sym, SymBool)) else core.is_inf(norm_num(x))
def _isfinite(x):
    return not (_isnan(x) or _isinf(x))

def _mul(a, b):
    if isinstance(a, (Sym, SymBool)) or isinstance(b, (Sym, SymBool)):
        if not isinstance(a, (Sym, SymBool)):
            return b*a
        return a*b
    return norm_num(a)*norm_num(b)
def _add(a, b):
    if isinstance(a, (bool,)) and isinstance(b, bool):
        return a or b
    if isinstance(a, SymBool) and isinstance(b, (bool, SymBool)) or isinstance(b, SymBool) and isinstance(a, bool):
        return core.bor(a, b)
    return a + b
def _sub(a, b):
    return a - b
def _floordiv(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return core.floor(core.divide(a, b))
    a, b = norm_num(a), norm_num(b)
    if b == 0:
        return core.NAN
    return a//b
def _cmpf(op):
    def f(a, b):
        if isinstance(a, (Sym, SymBool)) or isinstance(b, (Sym, SymBool)):
            return core.compare(op, a, b)
        if op == '==':
            return a == b
        if op == '!=':
            return a != b
        return a < b if op == '<' else a <= b
    return f
_lt, _le = _cmpf('<'), _cmpf('<=')

def _bitand(a, b):
    if isinstance(a, (bool, SymBool)) or isinstance(b, (bool, SymBool)):
        return core.band(a, b)
    return RI(a) & RI(b)
def _bitor(a, b):
    if isinstance(a, (bool, SymBool)) or isinstance(b, (bool, SymBool)):
        return core.bor(a, b)
    return RI(a) | RI(b)
def _invert(a):
    if isinstance(a, (bool, SymBool)):
        return core.bnot(a)
    return ~RI(a)
def _xor(a, b):
    a, b = core.tobool(a), core.tobool(b)
    return core.bor(core.band(a, core.bnot(b)), core.band(core.bnot(a), b))
def _fn(name):
    return lambda x: core.function(name, x)
def _ceil(x):
    return core.ceil(x) if isinstance(x, Sym) else -core.floor(-norm_num(x))
def _neg(x):
    return -core.bool_to_num(x) if isinstance(x, SymBool) else -x
def _conj(x):
    return x.conjugate() if not isinstance(x, SymBool) else x
def _arctan2(a, b):
    for x, y, r in ((a, b, (math.pi, 0.0)), (b, a, (-math.pi/2, math.pi/2))):
        if isinstance(y, Sym) and not isinstance(x, Sym) and x == 0:
            lo, hi = core.bounds(y)
            if lo is not None and lo > 0:
                return r[1]
            if hi is not None and hi < 0:
                return r[0]
    if isinstance(a, Sym) and isinstance(b, Sym) and len(a.t) == 1 and a.t.keys() == b.t.keys():
        # both the same positive quantity times a number
        (m, x), = a.t.items()
        lo = core.mono_bounds(m)[0]
        if lo is not None and lo > 0:
            return math.atan2(x, b.t[m])
    if isinstance(a, Sym) and isinstance(b, Sym) and len(a.t) == 1 and len(b.t) == 1:
        # sine and cosine of one angle: the angle wrapped to (-pi, pi]
        ((m, x),), ((n, y),) = a.t.items(), b.t.items()
        if len(m) == 1 and len(n) == 1 and x == y == 1:
            f, g = core.E.atoms[m[0]], core.E.atoms[n[0]]
            if f.kind == 'sin' and g.kind == 'cos' and f.args[1] is g:
                q = f.args[0]
                return q + (2*math.pi)*core.floor((math.pi - q)/(2*math.pi))
    return core.function('arctan2', a, b)
def _logf(x):
    if isinstance(x, Sym) and len(x.t) == 1 and not core.E.exact:
        # product of a number and positive quantities
        (m, k), = x.t.items()
        if not isinstance(k, complex) and k > 0 and m and all((core.E.atoms[a].lo or 0) > 0 for a in m) and (k != 1 or len(m) > 1):
            r = math.log(k)
            for a in m:
                r = r + core.function('log', Sym({(a,): 1}))
            return r
    return core.function('log', x)
def _clip(x, lo, hi):
    if lo is not None:
        x = core.maximum(x, lo)
    if hi is not None:
        x = core.minimum(x, hi)
    return x
def _tanf(x):
    return core.tan(x)

# name -> (function, kind rule)
P, B_, F_ = 'promote', 'b', 'f'
UF = {
    'add': (_add, P), 'subtract': (_sub, P), 'multiply': (_mul, P),
    'divide': (core.divide, 'div'), 'true_divide': (core.divide, 'div'),
    'floor_divide': (_floordiv, P), 'remainder': (core.mod, P), 'mod': (core.mod, P),
    'fmod': (core.fmod, P), 'power': (core.power, P), 'float_power': (core.power, 'div'),
    'negative': (_neg, P), 'positive': (lambda x: x, P),
    'absolute': (core.absolute, 'abs'), 'fabs': (core.absolute, 'f'),
    'sqrt': (core.sqrt, 'div'), 'square': (lambda x: x*x, P),
    'reciprocal': (lambda x: core.divide(1.0, x), 'div'),
    'cbrt': (lambda x: core.function('pow', x, 1.0/3.0), 'f'),
    'exp': (core.exp, 'div'), 'log': (_logf, 'f'), 'log10': (_fn('log10'), 'f'),
    'log2': (lambda x: core.divide(core.function('log', x), math.log(2)), 'f'),
    'expm1': (lambda x: core.exp(x) - 1, 'f'), 'log1p': (lambda x: core.function('log', 1 + x), 'f'),
    'sin': (core.sin, 'f'), 'cos': (core.cos, 'f'), 'tan': (_tanf, 'f'),
    'arcsin': (_fn('arcsin'), 'f'), 'arccos': (_fn('arccos'), 'f'),
    'arctan': (_fn('arctan'), 'f'), 'arctan2': (_arctan2, 'f'),
    'sinh': (_fn('sinh'), 'f'), 'cosh': (_fn('cosh'), 'f'), 'tanh': (_fn('tanh'), 'f'),
    'hypot': (core.hypot, 'f'),
    'floor': (core.floor, P), 'ceil': (_ceil, P), 'trunc': (core.trunc, P),
    'rint': (lambda x: core.sround(x), P),
    'sign': (core.sign, P), 'maximum': (core.maximum, P), 'minimum': (core.minimum, P),
    'fmax': (core.maximum, P), 'fmin': (core.minimum, P),
    'less': (_lt, B_), 'less_equal': (_le, B_),
    'greater': (lambda a, b: _lt(b, a), B_), 'greater_equal': (lambda a, b: _le(b, a), B_),
    'equal': (_cmpf('=='), B_), 'not_equal': (_cmpf('!='), B_),
    'logical_and': (_logical(core.band), B_), 'logical_or': (_logical(core.bor), B_),
    'logical_not': (core.bnot, B_), 'logical_xor': (_xor, B_),
    'bitwise_and': (_bitand, P), 'bitwise_or': (_bitor, P), 'bitwise_xor': (_xor, P),
    'invert': (_invert, P),
    'isnan': (_isnan, B_), 'isinf': (_isinf, B_), 'isfinite': (_isfinite, B_),
    'conjugate': (_conj, P),
    'deg2rad': (lambda x: x*(math.pi/180.0), 'f'), 'radians': (lambda x: x*(math.pi/180.0), 'f'),
    'rad2deg': (lambda x: x*(180.0/math.pi), 'f'), 'degrees': (lambda x: x*(180.0/math.pi), 'f'),
    'clip': (_clip, P),
    'copysign': (lambda a, b: core.ite(core.compare('<', b, 0), -core.absolute(a), core.absolute(a)), 'f'),
}
PYF = {}
def _pyf(name):
    f = PYF.get(name)
    if f is None:
        u = getattr(np, name) if hasattr(np, name) else None
        nin = u.nin if u is not None else 2
        if name == 'clip':
            nin = 3
        f = PYF[name] = np.frompyfunc(UF[name][0], nin, 1)
    return f

def _obj(x):
    """operand as plain object array / scalar"""
    if isinstance(x, SymArray):
        return x.view(rnd)
    if isinstance(x, rnd):
        if x.dtype.kind == 'M' or x.dtype.kind == 'm':
            return x
        return x.astype(object) if x.dtype.kind != 'O' else x
    if isinstance(x, (Sym, SymBool)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple)):
        return sarray(x).view(rnd)
    return x

def _rkind(name, rule, inputs, res=None):
    if rule in ('b', 'f'):
        return rule
    k = 'b'
    for x in inputs:
        k = _promote(k, kind_of(x))
    if rule == 'div':
        return k if k == 'c' else 'f'
    if rule == 'abs':
        return 'f' if k == 'c' else k
    if name in ('floor', 'ceil', 'rint', 'trunc') and k == 'b':
        return 'f'
    return k

def ufunc_dispatch(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    out = kwargs.pop('out', None)
    where = kwargs.pop('where', True)
    kwargs.pop('dtype', None)
    kwargs.pop('casting', None)
    kwargs.pop('order', None)
    kwargs.pop('subok', None)
    if isinstance(out, tuple):
        out = out[0]
    if any(isinstance(x, np.ma.MaskedArray) for x in inputs):
        raise EngineError('masked array arithmetic')
    if name == 'matmul':
        return _out(_matmul(*inputs), out)
    if name == 'divmod':
        q = ufunc_dispatch(np.floor_divide, '__call__', inputs, {})
        return (q, ufunc_dispatch(np.subtract, '__call__', (inputs[0],
            ufunc_dispatch(np.multiply, '__call__', (q, inputs[1]), {})), {}))
    if name == 'vecdot':
        return np.sum(sarray(inputs[0])*sarray(inputs[1]), axis=-1)
    if name == 'modf':
        q = ufunc_dispatch(np.trunc, '__call__', inputs, {})
        return (inputs[0] - q, q)
    if name not in UF:
        if not any(has_sym(x) for x in inputs):
            return getattr(ufunc, method)(*[floatify(x) for x in inputs], **kwargs)
        raise EngineError(f'ufunc {name}')
    fn, rule = UF[name]
    f = _pyf(name)
    if method == '__call__':
        if name in ('multiply',) and out is None and where is True:
            r = _fast_mul(inputs)
            if r is not None:
                return r
        args = [_obj(x) for x in inputs]
        r = f(*args)
        if where is not True:
            w = _idx(where) if isinstance(where, SymArray) else where
            if out is None:
                out = zeros(np.shape(r))
            o = out
            rr = np.broadcast_to(base(sarray(r)), o.shape)
            ww = np.broadcast_to(w, o.shape)
            for i in np.ndindex(o.shape):
                if ww[i]:
                    o[i] = rr[i]
            return out
        return _out(wrap(r, _rkind(name, rule, inputs)), out)
    if method == 'reduce':
        x = inputs[0]
        axis = kwargs.get('axis', inputs[1] if len(inputs) > 1 else 0)
        keepdims = kwargs.get('keepdims', False)
        x = sarray(x)
        k = _rkind(name, rule, (x,))
        if name == 'add' and k == 'b':
            k = 'i'
            x = cast_array(x, 'i')
        r = _reduce(name, f, x.view(rnd), axis, keepdims, kwargs.get('initial', None))
        return _out(wrap(r, k), out)
    if method == 'accumulate':
        x = sarray(inputs[0])
        axis = kwargs.get('axis', inputs[1] if len(inputs) > 1 else 0)
        r = f.accumulate(x.view(rnd), axis=axis)
        return _out(wrap(r, _rkind(name, rule, (x,))), out)
    if method == 'outer':
        a, b = sarray(inputs[0]), sarray(inputs[1])
        r = f.outer(a.view(rnd), b.view(rnd))
        return _out(wrap(r, _rkind(name, rule, (a, b))), out)
    if method == 'at':
        a = inputs[0]
        idx = inputs[1]
        if len(inputs) > 2:
            ii = [_idx(i) for i in idx] if isinstance(idx, tuple) else [_idx(idx)]
            vals = np.broadcast_to(base(sarray(inputs[2])), np.broadcast(*ii).shape)
            for n, t in enumerate(np.broadcast(*ii)):
                t = t if len(t) > 1 else t[0]
                a[t] = fn(a[t], vals.flat[n])
        return None
    raise EngineError(f'ufunc {name}.{method}')

def _fast_mul(inputs):
    return None

def _out(r, out):
    if out is None:
        return r
    if isinstance(out, SymArray):
        out[...] = r
        return out
    out[...] = floatify(r)
    return out

def _reduce(name, f, a, axis, keepdims, initial):
    if axis is None:
        axis = tuple(range(a.ndim))
    if not isinstance(axis, tuple):
        axis = (axis,)
    axis = tuple(x % a.ndim for x in axis) if a.ndim else ()
    keep = [i for i in range(a.ndim) if i not in axis]
    t = a.transpose(keep + list(axis)) if a.ndim else a
    shp = [a.shape[i] for i in keep]
    n = int(np.prod([a.shape[i] for i in axis])) if axis else 1
    t = t.reshape(shp + [n])
    out = np.empty(shp, dtype=object)
    for i in np.ndindex(*shp):
        col = t[i].tolist() if n else []
        if initial is not None:
            col = [initial] + col
        out[i] = _fold(name, f, col)
    if keepdims:
        out = out.reshape([1 if i in axis else a.shape[i] for i in range(a.ndim)])
    return out

def _fold(name, f, col):
    if name == 'add':
        return linsum(col)
    if not col:
        if name == 'multiply':
            return 1.0
        if name == 'logical_and':
            return True
        if name == 'logical_or':
            return False
        raise ValueError(f'zero-size array to reduction operation {name} which has no identity')
    if name == 'logical_and':
        return core.band(*col)
    if name == 'logical_or':
        return core.bor(*col)
    r = col[0]
    fn = UF[name][0]
    for x in col[1:]:
        r = fn(r, x)
    return r

def linsum(col):
    """sum of numbers and symbolic values with one accumulator"""
    num = 0
    t = None
    for x in col:
        if isinstance(x, SymBool):
            x = core.bool_to_num(x)
        if isinstance(x, Sym):
            if t is None:
                t = dict(x.t)
            else:
                for m, c in x.t.items():
                    v = t.get(m)
                    t[m] = c if v is None else v + c
        else:
            num = num + x
    if t is None:
        return num if col else 0.0
    t = {m: c for m, c in t.items() if c != 0}
    r = core.demote(t)
    return r + num if not (is_num(num) and num == 0) else r

def lincomb(cs, xs):
    """sum c*x of two sequences"""
    num = 0
    t = {}
    rest = []
    for c, x in zip(cs, xs):
        sc, sx = isinstance(c, (Sym, SymBool)), isinstance(x, (Sym, SymBool))
        if sc and sx:
            rest.append(c*x)
        elif sc or sx:
            if sc:
                c, x = x, c
            if isinstance(x, SymBool):
                x = core.bool_to_num(x)
                if not isinstance(x, Sym):
                    num = num + c*x
                    continue
            c = norm_num(c)
            if core.is_nan(c):
                num = num + c
                continue
            if core.is_inf(c):
                rest.append(x*c)
                continue
            c = core.coef(c)
            if c == 0:
                continue
            for m, v in x.t.items():
                w = t.get(m)
                t[m] = v*c if w is None else w + v*c
        else:
            num = num + c*x
    t = {m: c for m, c in t.items() if c != 0}
    r = core.demote(t) if t else 0
    if rest:
        r = linsum([r] + rest)
    if is_num(num) and num == 0:
        return r if t or rest else num
    return r + num

def floatify(x):
    """concrete SymArray -> real ndarray (raises EngineError if symbolic)"""
    if isinstance(x, SymArray):
        k = x._k
        l = x.flat_elems()
        if any(isinstance(e, (Sym, SymBool)) for e in l):
            raise EngineError('symbolic array where concrete data is needed')
        a = np.array([RF(e) if isinstance(e, Fraction) else e for e in l])
        if a.size == 0:
            a = a.astype(_DT.get(k, float))
        if k in 'ifbc' and a.dtype.kind in 'biufc':
            a = a.astype(_DT[k]) if not (k in 'if' and a.dtype.kind == 'c') else a
        return a.reshape(x.shape)
    if isinstance(x, (Sym, SymBool)):
        raise EngineError('symbolic value where concrete data is needed')
    if isinstance(x, (list, tuple)):
        return type(x)(floatify(y) for y in x)
    if isinstance(x, dict):
        return {k: floatify(v) for k, v in x.items()}
    return x

# ------------------------------------------------------------------ functions
FN = {}
def impl(*names):
    def deco(f):
        for n in names:
            FN[n] = f
        return f
    return deco

def _fname(func):
    m = getattr(func, '__module__', '') or ''
    n = func.__name__
    if 'linalg' in m:
        return 'linalg.' + n
    if 'fft' in m:
        return 'fft.' + n
    if '.ma' in m:
        return 'ma.' + n
    return n

def function_dispatch(func, args, kwargs):
    n = _fname(func)
    f = FN.get(n)
    if f is not None:
        return f(*args, **kwargs)
    # structural functions work on plain object arrays
    ks = []
    def conv(x):
        if isinstance(x, SymArray):
            ks.append(x._k)
            return x.view(rnd)
        if isinstance(x, rnd) and x.dtype.kind in 'biufc':
            return x
        if isinstance(x, (Sym, SymBool)):
            return sarray(x).view(rnd)
        if isinstance(x, (list, tuple)) and any(isinstance(y, (Sym, SymBool)) for y in x) and not any(isinstance(y, (list, tuple)) or (isinstance(y, rnd) and y.ndim) for y in x):
            return sarray(x).view(rnd)
        if isinstance(x, (list, tuple)) and any(isinstance(y, (rnd, Sym, SymBool, list, tuple)) for y in x):
            return type(x)(conv(y) for y in x)
        return x
    if n in STRUCT:
        a = [conv(x) for x in args]
        kw = {k: conv(v) for k, v in kwargs.items()}
        r = func(*a, **kw)
        allk = [kind_of(x) for x in _arrays(args)] or ['f']
        k = functools.reduce(_promote, allk)
        return _wrapall(r, k)
    # otherwise every argument must be concrete
    try:
        a = [floatify(x) for x in args]
        kw = {k: floatify(v) for k, v in kwargs.items()}
    except EngineError:
        if n in UNSUPPORTED:
            raise EngineError(f'numpy function {n} of symbolic data')
        a = [conv(x) for x in args]
        kw = {k: conv(v) for k, v in kwargs.items()}
        r = func(*a, **kw)
        return _wrapall(r, functools.reduce(_promote, ks, 'b'))
    return func(*a, **kw)

UNSUPPORTED = set()
STRUCT = {'concatenate', 'stack', 'vstack', 'hstack', 'dstack', 'column_stack',
    'reshape', 'ravel', 'transpose', 'swapaxes', 'moveaxis', 'rollaxis', 'squeeze',
    'expand_dims', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'broadcast_to',
    'broadcast_arrays', 'tile', 'repeat', 'roll', 'flip', 'fliplr', 'flipud', 'rot90',
    'take', 'take_along_axis', 'insert', 'append', 'delete', 'split', 'array_split',
    'hsplit', 'vsplit', 'diag', 'diagonal', 'diagflat', 'tril', 'triu', 'trace', 'kron',
    'resize', 'meshgrid', 'pad', 'block', 'ix_', 'vander', 'choose', 'cross', 'real_if_close',
    'fill_diagonal', 'put', 'place', 'ediff1d', 'matrix_transpose', 'unstack'}

def _arrays(args):
    for x in args:
        if isinstance(x, (list, tuple)):
            yield from _arrays(x)
        elif isinstance(x, (rnd, Sym, SymBool)) or is_num(x):
            if isinstance(x, rnd) or isinstance(x, (Sym, SymBool)):
                yield x

def _wrapall(r, k):
    if isinstance(r, (list, tuple)) and not hasattr(r, '_fields'):
        return type(r)(_wrapall(x, k) for x in r)
    if isinstance(r, rnd) and r.dtype.kind == 'O' and not isinstance(r, SymArray):
        r = r.view(SymArray)
        r._k = k
        return r
    return r

@impl('copy')
def _copy(a, *args, **kw):
    if isinstance(a, (Sym, SymBool)):
        return sarray(a)
    return sarray(a).copy()

@impl('shape')
def _shape(a):
    return sarray(a).shape if not isinstance(a, rnd) else a.shape
@impl('ndim')
def _ndim(a):
    return len(_shape(a))
@impl('size')
def _size(a, axis=None):
    s = _shape(a)
    if axis is None:
        return int(np.prod(s)) if s else 1
    return s[axis]

@impl('iscomplexobj')
def _iscomplexobj(x):
    return kind_of(x) == 'c'
@impl('isrealobj')
def _isrealobj(x):
    return kind_of(x) != 'c'
@impl('iscomplex')
def _iscomplex(x):
    return np.not_equal(np.imag(x), 0)
@impl('isreal')
def _isreal(x):
    return np.equal(np.imag(x), 0)

@impl('real')
def _real(x):
    return x.real if hasattr(x, 'real') else sarray(x).real
@impl('imag')
def _imag(x):
    return x.imag if hasattr(x, 'imag') else sarray(x).imag
@impl('angle')
def _angle(z, deg=False):
    r = np.arctan2(_imag(z), _real(z))
    return r*(180.0/math.pi) if deg else r

@impl('sum')
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    a = sarray(a)
    if where is not True:
        a = _where(where, a, 0)
    kw = dict(axis=axis, keepdims=keepdims)
    if initial is not None:
        kw['initial'] = initial
    return _out(ufunc_dispatch(np.add, 'reduce', (a,), kw), out)
@impl('nansum')
def _nansum(a, axis=None, **kw):
    a = sarray(a)
    return _sum(_where(np.isnan(a), 0.0, a), axis=axis)
@impl('prod')
def _prod(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    return ufunc_dispatch(np.multiply, 'reduce', (sarray(a),), dict(axis=axis, keepdims=keepdims))
@impl('cumsum')
def _cumsum(a, axis=None, dtype=None, out=None):
    a = sarray(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    return ufunc_dispatch(np.add, 'accumulate', (a,), dict(axis=axis))
@impl('cumprod')
def _cumprod(a, axis=None, dtype=None, out=None):
    a = sarray(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    return ufunc_dispatch(np.multiply, 'accumulate', (a,), dict(axis=axis))
@impl('mean')
def _mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = sarray(a)
    if axis is None:
        n = a.size
    else:
        n = int(np.prod([a.shape[i] for i in (axis if isinstance(axis, tuple) else (axis,))]))
    s = _sum(a, axis=axis, keepdims=keepdims)
    if n == 0:
        return s*core.NAN
    return np.true_divide(s, n) if isinstance(s, rnd) else core.divide(s, n)
@impl('nanmean')
def _nanmean(a, axis=None, **kw):
    a = sarray(a)
    n = _sum(cast_array(np.logical_not(np.isnan(a)), 'i'), axis=axis)
    return np.true_divide(_nansum(a, axis=axis), n)
@impl('average')
def _average(a, axis=None, weights=None, returned=False, **kw):
    if weights is None:
        return _mean(a, axis=axis)
    a = sarray(a)
    w = sarray(weights)
    if w.shape != a.shape:
        sh = [1]*a.ndim
        sh[axis] = w.size
        w = w.reshape(sh)
    return np.true_divide(_sum(a*w, axis=axis), _sum(np.broadcast_to(w, a.shape), axis=axis))
@impl('var')
def _var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    a = sarray(a)
    m = _mean(a, axis=axis, keepdims=True)
    d = a - m
    n = a.size if axis is None else a.shape[axis]
    s = _sum(d*np.conjugate(d), axis=axis, keepdims=keepdims)
    return np.true_divide(s, n - ddof) if isinstance(s, rnd) else core.divide(s, n - ddof)
@impl('std')
def _std(a, axis=None, **kw):
    v = _var(a, axis=axis, **kw)
    return np.sqrt(v) if isinstance(v, rnd) else core.sqrt(v)
@impl('max', 'amax', 'nanmax')
def _max(a, axis=None, out=None, keepdims=False, **kw):
    return ufunc_dispatch(np.maximum, 'reduce', (sarray(a),), dict(axis=axis, keepdims=keepdims))
@impl('min', 'amin', 'nanmin')
def _min(a, axis=None, out=None, keepdims=False, **kw):
    return ufunc_dispatch(np.minimum, 'reduce', (sarray(a),), dict(axis=axis, keepdims=keepdims))
@impl('ptp')
def _ptp(a, axis=None, **kw):
    return _max(a, axis=axis) - _min(a, axis=axis)
@impl('any')
def _any(a, axis=None, out=None, keepdims=False, **kw):
    a = sarray(a)
    return ufunc_dispatch(np.logical_or, 'reduce', (cast_array(a, 'b'),), dict(axis=axis, keepdims=keepdims))
@impl('all')
def _all(a, axis=None, out=None, keepdims=False, **kw):
    a = sarray(a)
    return ufunc_dispatch(np.logical_and, 'reduce', (cast_array(a, 'b'),), dict(axis=axis, keepdims=keepdims))
@impl('nonzero')
def _nonzero(a):
    a = sarray(a)
    m = np.array([bool(core.tobool(e)) if isinstance(e, (Sym, SymBool)) else bool(e)
        for e in a.flat_elems()], dtype=bool).reshape(a.shape)
    return np.nonzero(m)
@impl('flatnonzero')
def _flatnonzero(a):
    return _nonzero(sarray(a).reshape(-1))[0]
@impl('argwhere')
def _argwhere(a):
    return np.transpose(_nonzero(a))
@impl('count_nonzero')
def _count_nonzero(a, axis=None, keepdims=False):
    a = cast_array(sarray(a), 'b')
    return _sum(cast_array(a, 'i'), axis=axis, keepdims=keepdims)
@impl('where')
def _where(c, *xy):
    if not xy:
        return _nonzero(c)
    x, y = xy
    k = _promote(kind_of(x), kind_of(y))
    f = np.frompyfunc(core.ite, 3, 1)
    r = f(_obj(cast_array(sarray(c), 'b')), _obj(sarray(x)), _obj(sarray(y)))
    return wrap(r, k)
@impl('select')
def _select(condlist, choicelist, default=0):
    r = default
    for c, x in zip(reversed(condlist), reversed(choicelist)):
        r = _where(c, x, r)
    return r
@impl('piecewise')
def _piecewise(x, condlist, funclist, *a, **k):
    r = 0
    fl = list(funclist)
    if len(fl) == len(condlist) + 1:
        d = fl[-1]
        r = d(x) if callable(d) else d
    for c, f in zip(reversed(condlist), reversed(fl[:len(condlist)])):
        r = _where(c, f(x, *a, **k) if callable(f) else f, r)
    return r
@impl('isclose')
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        if not isinstance(x, (Sym, SymBool)) and not isinstance(y, (Sym, SymBool)):
            return bool(np.isclose(RF(x), RF(y), rtol=rtol, atol=atol, equal_nan=equal_nan))
        if (is_num(x) and core.is_nan(norm_num(x))) or (is_num(y) and core.is_nan(norm_num(y))):
            return False
        return core.compare('<=', core.absolute(x - y), atol + rtol*core.absolute(y))
    return wrap(np.frompyfunc(f, 2, 1)(_obj(a), _obj(b)), 'b')
@impl('allclose')
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(_all(_isclose(a, b, rtol, atol, equal_nan)))
@impl('array_equal')
def _array_equal(a, b, **k):
    a, b = sarray(a), sarray(b)
    if a.shape != b.shape:
        return False
    return bool(_all(np.equal(a, b)))
@impl('array_equiv')
def _array_equiv(a, b):
    return bool(_all(np.equal(sarray(a), sarray(b))))

def _lt_key(a, b):
    if bool(_lt(a, b)):
        return -1
    if bool(_lt(b, a)):
        return 1
    return 0
def _argsort1(l):
    return sorted(range(len(l)), key=functools.cmp_to_key(lambda i, j: _lt_key(l[i], l[j])))
@impl('argsort')
def _argsort(a, axis=-1, **kw):
    a = sarray(a)
    if axis is None:
        a = a.reshape(-1)
        axis = -1
    m = np.moveaxis(a.view(rnd), axis, -1)
    out = np.zeros(m.shape, dtype=np.int64)
    for i in np.ndindex(m.shape[:-1]):
        out[i] = _argsort1(m[i].tolist())
    return np.moveaxis(out, -1, axis)
@impl('sort')
def _sort(a, axis=-1, **kw):
    a = sarray(a)
    if axis is None:
        a = a.reshape(-1)
        axis = -1
    i = _argsort(a, axis)
    return _wrapall(np.take_along_axis(a.view(rnd), i, axis), a._k)
@impl('lexsort')
def _lexsort(keys, axis=-1):
    keys = [list(sarray(k).flat_elems()) for k in keys]
    def c(i, j):
        for k in reversed(keys):
            r = _lt_key(k[i], k[j])
            if r:
                return r
        return 0
    return np.array(sorted(range(len(keys[0])), key=functools.cmp_to_key(c)))
@impl('argmax')
def _argmax(a, axis=None, **kw):
    return _argm(a, axis, lambda x, y: _lt(y, x))
@impl('argmin', 'nanargmin')
def _argmin(a, axis=None, **kw):
    return _argm(a, axis, _lt)
def _argm(a, axis, better):
    a = sarray(a)
    def one(l):
        b = 0
        for i in range(1, len(l)):
            if bool(better(l[i], l[b])):
                b = i
        return b
    if axis is None:
        return one(a.flat_elems())
    m = np.moveaxis(a.view(rnd), axis, -1)
    out = np.zeros(m.shape[:-1], dtype=np.int64)
    for i in np.ndindex(out.shape):
        out[i] = one(m[i].tolist())
    return out if out.ndim else int(out)
@impl('unique')
def _unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    a = sarray(ar)
    l = a.flat_elems()
    order = _argsort1(l)
    vals, first, inv, cnt = [], [], [0]*len(l), []
    for i in order:
        if vals and bool(core.tobool(_cmpf('==')(l[i], vals[-1]))):
            cnt[-1] += 1
            first[-1] = min(first[-1], i)
        else:
            vals.append(l[i])
            first.append(i)
            cnt.append(1)
        inv[i] = len(vals) - 1
    v = sarray(vals, a._k) if vals else zeros((0,))
    if not (return_index or return_inverse or return_counts):
        return v
    r = (v,)
    if return_index:
        r += (np.array(first),)
    if return_inverse:
        r += (np.array(inv).reshape(a.shape),)
    if return_counts:
        r += (np.array(cnt),)
    return r
@impl('isin', 'in1d')
def _isin(a, test, assume_unique=False, invert=False, **kw):
    t = sarray(test).flat_elems()
    f = lambda x: core.bor(*[_cmpf('==')(x, y) for y in t]) if t else False
    r = np.frompyfunc(f, 1, 1)(_obj(sarray(a)))
    r = wrap(r, 'b')
    return np.logical_not(r) if invert else r
def _setlist(a, b, keep):
    ua, ub = _unique(a).flat_elems(), _unique(b).flat_elems()
    return ua, ub
@impl('intersect1d')
def _intersect1d(a, b, assume_unique=False, return_indices=False):
    la, lb = sarray(a).flat_elems(), sarray(b).flat_elems()
    u, i1 = _unique(a, return_index=True)
    vals, ia, ib = [], [], []
    for v, i in zip(u.flat_elems(), i1):
        for j, w in enumerate(lb):
            if bool(core.tobool(_cmpf('==')(v, w))):
                vals.append(v); ia.append(int(i)); ib.append(j)
                break
    v = sarray(vals) if vals else zeros((0,))
    return (v, np.array(ia, dtype=int), np.array(ib, dtype=int)) if return_indices else v
@impl('setdiff1d')
def _setdiff1d(a, b, assume_unique=False):
    u = _unique(a)
    m = _isin(u, b, invert=True)
    return u[m]
@impl('union1d')
def _union1d(a, b):
    return _unique(np.concatenate([sarray(a).reshape(-1), sarray(b).reshape(-1)]))
@impl('searchsorted')
def _searchsorted(a, v, side='left', sorter=None):
    l = sarray(a).flat_elems()
    def f(x):
        n = 0
        for e in l:
            if bool(core.tobool(_lt(e, x) if side == 'left' else _le(e, x))):
                n += 1
            else:
                break
        return n
    r = np.frompyfunc(f, 1, 1)(_obj(sarray(v)))
    return r.astype(np.int64) if isinstance(r, rnd) else r
@impl('diff')
def _diff(a, n=1, axis=-1, **kw):
    a = sarray(a)
    for _ in range(n):
        s1 = [slice(None)]*a.ndim
        s2 = [slice(None)]*a.ndim
        s1[axis] = slice(1, None)
        s2[axis] = slice(None, -1)
        a = a[tuple(s1)] - a[tuple(s2)]
    return a
@impl('gradient')
def _gradient(f, *varargs, axis=None, **kw):
    raise EngineError('gradient')
@impl('trapezoid', 'trapz')
def _trapz(y, x=None, dx=1.0, axis=-1):
    y = sarray(y)
    d = dx if x is None else _diff(x)
    s1 = [slice(None)]*y.ndim
    s2 = [slice(None)]*y.ndim
    s1[axis] = slice(1, None)
    s2[axis] = slice(None, -1)
    if x is not None and y.ndim > 1 and np.ndim(d) == 1:
        sh = [1]*y.ndim
        sh[axis] = len(d)
        d = np.reshape(d, sh)
    return _sum(d*(y[tuple(s1)] + y[tuple(s2)])*0.5, axis=axis)
@impl('interp')
def _interp(x, xp, fp, left=None, right=None, period=None):
    xp, fp = sarray(xp).flat_elems(), sarray(fp).flat_elems()
    if period is not None:
        raise EngineError('interp with period')
    def f(v):
        if bool(core.tobool(_lt(v, xp[0]))):
            return fp[0] if left is None else left
        if bool(core.tobool(_lt(xp[-1], v))):
            return fp[-1] if right is None else right
        for i in range(len(xp)-1):
            if bool(core.tobool(_le(v, xp[i+1]))):
                return fp[i] + core.divide(v - xp[i], xp[i+1] - xp[i])*(fp[i+1]-fp[i])
        return fp[-1]
    return wrap(np.frompyfunc(f, 1, 1)(_obj(sarray(x))), 'f')
@impl('round', 'around', 'round_')
def _round(a, decimals=0, out=None):
    a = sarray(a)
    def f(x):
        if isinstance(x, Sym):
            return core.sround(x, decimals)
        if isinstance(x, RF) and not math.isfinite(x):
            return x
        r = round(x, decimals)
        return RF(r) if isinstance(x, RF) else r
    return wrap(np.frompyfunc(f, 1, 1)(a.view(rnd)), a._k)
@impl('fix')
def _fix(a, out=None):
    return np.trunc(a)
@impl('clip')
def _clipf(a, a_min=None, a_max=None, out=None, min=None, max=None, **kw):
    a_min = a_min if a_min is not None else min
    a_max = a_max if a_max is not None else max
    r = sarray(a)
    if a_min is not None:
        r = np.maximum(r, a_min)
    if a_max is not None:
        r = np.minimum(r, a_max)
    return _out(wrap(base(r), kind_of(r)) if isinstance(r, rnd) else r, out)
@impl('nan_to_num')
def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    return _where(np.isnan(sarray(x)), nan, x)

# ---- products
def _lin2(a, b):
    """product of 2-D object arrays"""
    n, k = a.shape
    k2, m = b.shape
    if k != k2:
        raise ValueError(f'shapes {a.shape} and {b.shape} not aligned')
    out = np.empty((n, m), dtype=object)
    cols = [b[:, j].tolist() for j in range(m)]
    for i in range(n):
        row = a[i].tolist()
        for j in range(m):
            out[i, j] = lincomb(row, cols[j])
    return out
@impl('dot')
def _dot(a, b, out=None):
    a, b = sarray(a), sarray(b)
    k = _promote(a._k, b._k)
    if a.ndim == 0 or b.ndim == 0:
        return a*b
    A, B = a.view(rnd), b.view(rnd)
    if B.ndim == 1:
        if A.shape[-1] != B.shape[0]:
            raise ValueError(f'shapes {A.shape} and {B.shape} not aligned')
        r = _lin2(A.reshape(math.prod(A.shape[:-1]), A.shape[-1]), B.reshape(-1, 1)).reshape(A.shape[:-1])
    else:
        if A.shape[-1] != B.shape[-2]:
            raise ValueError(f'shapes {A.shape} and {B.shape} not aligned')
        Bm = np.moveaxis(B, -2, 0)
        r = _lin2(A.reshape(math.prod(A.shape[:-1]), A.shape[-1]), Bm.reshape(Bm.shape[0], math.prod(Bm.shape[1:]))).reshape(A.shape[:-1] + Bm.shape[1:])
    return wrap(r, k)
@impl('matmul')
def _matmul(a, b, out=None, **kw):
    a, b = sarray(a), sarray(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    if a.ndim <= 2 and b.ndim <= 2:
        return _dot(a, b)
    k = _promote(a._k, b._k)
    A, B = a.view(rnd), b.view(rnd)
    ea = A.ndim == 1
    eb = B.ndim == 1
    if ea:
        A = A[None, :]
    if eb:
        B = B[:, None]
    bs = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = np.broadcast_to(A, bs + A.shape[-2:])
    B = np.broadcast_to(B, bs + B.shape[-2:])
    r = np.empty(bs + (A.shape[-2], B.shape[-1]), dtype=object)
    for i in np.ndindex(*bs):
        r[i] = _lin2(A[i], B[i])
    if ea:
        r = r[..., 0, :]
    if eb:
        r = r[..., 0]
    return wrap(r, k)
@impl('vdot')
def _vdot(a, b):
    return _dot(np.conjugate(sarray(a)).reshape(-1), sarray(b).reshape(-1))
@impl('inner')
def _inner(a, b):
    a, b = sarray(a), sarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a*b
    return _tensordot(a, b, axes=(-1, -1))
@impl('outer')
def _outer(a, b, out=None):
    return ufunc_dispatch(np.multiply, 'outer', (sarray(a).reshape(-1), sarray(b).reshape(-1)), {})
@impl('tensordot')
def _tensordot(a, b, axes=2):
    a, b = sarray(a), sarray(b)
    k = _promote(a._k, b._k)
    A, B = a.view(rnd), b.view(rnd)
    if isinstance(axes, RI):
        aa, bb = list(range(A.ndim-axes, A.ndim)), list(range(axes))
    else:
        aa, bb = axes
        aa = [aa] if isinstance(aa, RI) else list(aa)
        bb = [bb] if isinstance(bb, RI) else list(bb)
    aa = [x % A.ndim for x in aa]
    bb = [x % B.ndim for x in bb]
    ra = [i for i in range(A.ndim) if i not in aa]
    rb = [i for i in range(B.ndim) if i not in bb]
    n = int(np.prod([A.shape[i] for i in aa]))
    r = _lin2(A.transpose(ra + aa).reshape(-1, n), B.transpose(bb + rb).reshape(n, -1))
    return wrap(r.reshape([A.shape[i] for i in ra] + [B.shape[i] for i in rb]), k)
@impl('einsum')
def _einsum(sub, *ops, out=None, **kw):
    ops = [sarray(o) for o in ops]
    k = functools.reduce(_promote, [o._k for o in ops])
    sub = sub.replace(' ', '')
    ins, _, res = sub.partition('->')
    ins = ins.split(',')
    if '...' in sub:
        # expand ellipsis with spare letters
        spare = [c for c in 'ABCDEFGHIJ' if c not in sub]
        nd = max(o.ndim - len(i.replace('...', '')) for o, i in zip(ops, ins) if '...' in i)
        ins = [i.replace('...', ''.join(spare[nd-(o.ndim-len(i.replace('...', ''))):nd])) for o, i in zip(ops, ins)]
        res = res.replace('...', ''.join(spare[:nd]))
    elif '->' not in sub:
        al = ''.join(ins)
        res = ''.join(sorted(c for c in set(al) if al.count(c) == 1))
    dim = {}
    for o, i in zip(ops, ins):
        if len(i) != o.ndim:
            raise ValueError('einsum: operand has wrong number of dimensions')
        for c, n in zip(i, o.shape):
            if dim.setdefault(c, n) != n:
                if dim[c] == 1:
                    dim[c] = n
                elif n != 1:
                    raise ValueError('einsum: operands could not be broadcast')
    summed = [c for c in dim if c not in res]
    out_ = np.empty([dim[c] for c in res], dtype=object)
    arrs = [o.view(rnd) for o in ops]
    for oi in np.ndindex(*out_.shape):
        env = dict(zip(res, oi))
        ca, cb = [], []
        for si in np.ndindex(*[dim[c] for c in summed]):
            env.update(zip(summed, si))
            p = None
            fs = [a[tuple(env[c] if a.shape[q] > 1 else 0 for q, c in enumerate(i))] for a, i in zip(arrs, ins)]
            for f in fs[:-1]:
                p = f if p is None else p*f
            ca.append(1 if p is None else p)
            cb.append(fs[-1])
        out_[oi] = lincomb(ca, cb)
    return _out(wrap(out_, k), out)
@impl('convolve')
def _convolve(a, v, mode='full'):
    a, v = sarray(a).reshape(-1), sarray(v).reshape(-1)
    k = _promote(a._k, v._k)
    if len(v) > len(a):
        a, v = v, a
    n, m = len(a), len(v)
    la, lv = a.flat_elems(), v.flat_elems()
    full = [lincomb([la[i] for i in range(max(0, j-m+1), min(n, j+1))],
        [lv[j-i] for i in range(max(0, j-m+1), min(n, j+1))]) for j in range(n+m-1)]
    if mode == 'same':
        s = (m-1)//2
        full = full[s:s+n]
    elif mode == 'valid':
        full = full[m-1:n]
    return sarray(full)
@impl('correlate')
def _correlate(a, v, mode='valid'):
    return _convolve(a, np.conjugate(sarray(v))[::-1], mode)

# ---- linear algebra: the matrix must be concrete; the right side may be symbolic
def _conc(a):
    return floatify(a) if isinstance(a, (SymArray, list, tuple)) else np.asarray(a)
@impl('linalg.inv')
def _inv(a):
    if has_sym(a):
        return _sym_inv(sarray(a))
    return sarray(np.linalg.inv(_conc(a)))
def _sym_inv(a):
    n = a.shape[0]
    if n == 1:
        return np.true_divide(1.0, a)
    if n == 2:
        m = a.view(rnd)
        det = m[0, 0]*m[1, 1] - m[0, 1]*m[1, 0]
        return sarray([[core.divide(m[1, 1], det), core.divide(-m[0, 1], det)],
            [core.divide(-m[1, 0], det), core.divide(m[0, 0], det)]])
    raise EngineError('inverse of a symbolic matrix')
@impl('linalg.pinv')
def _pinv(a, *args, **kw):
    return sarray(np.linalg.pinv(_conc(a), *args, **kw))
@impl('linalg.det')
def _det(a):
    return np.linalg.det(_conc(a))
@impl('linalg.solve')
def _solve(a, b):
    if has_sym(a):
        return _dot(_sym_inv(sarray(a)), b)
    return _dot(np.linalg.inv(_conc(a)), b)
@impl('linalg.lstsq')
def _lstsq(a, b, rcond=None, lapack_driver=None):
    if has_sym(a):
        raise EngineError('least squares with a symbolic design matrix')
    A = _conc(a)
    eps = np.finfo(RF).eps*max(A.shape) if rcond in (None,) else (np.finfo(RF).eps if rcond == -1 else rcond)
    _, _, rank, s = np.linalg.lstsq(A, np.zeros(A.shape[0]), rcond=rcond)
    x = _dot(np.linalg.pinv(A, rcond=eps), b)
    res = sarray([])
    if rank == A.shape[1] and A.shape[0] > A.shape[1]:
        d = sarray(b) - _dot(A, x)
        res = _sum(d*d, axis=0)
        res = sarray([res]) if not isinstance(res, rnd) else res
    return (x, res, rank, s)
@impl('linalg.norm')
def _norm(x, ord=None, axis=None, keepdims=False):
    x = sarray(x)
    if ord not in (None, 2, 'fro') or (ord == 2 and x.ndim > 1 and axis is None):
        raise EngineError('norm order')
    return np.sqrt(_sum(x*np.conjugate(x), axis=axis, keepdims=keepdims))
@impl('linalg.multi_dot')
def _multi_dot(arrays, out=None):
    return functools.reduce(_dot, arrays)
@impl('linalg.matrix_power')
def _mpow(a, n):
    return functools.reduce(_dot, [a]*n)
@impl('linalg.qr')
def _qr(a, *k, **kw):
    return tuple(sarray(x) for x in np.linalg.qr(_conc(a), *k, **kw))
@impl('linalg.svd')
def _svd(a, *k, **kw):
    return np.linalg.svd(_conc(a), *k, **kw)
@impl('linalg.cholesky')
def _chol(a, **k):
    return np.linalg.cholesky(_conc(a))
@impl('linalg.cond')
def _cond(a, *k):
    return np.linalg.cond(_conc(a), *k)
@impl('linalg.matrix_rank')
def _rank(a, *k):
    return np.linalg.matrix_rank(_conc(a), *k)
@impl('linalg.eigh')
def _eigh(a, *k):
    return np.linalg.eigh(_conc(a), *k)

def _fftmat(fn, n, m):
    """matrix of a linear transform of length n"""
    return np.array([fn(np.eye(n)[i], m) if m is not None else fn(np.eye(n)[i]) for i in range(n)]).T
def _mkfft(name):
    rf = getattr(np.fft, name)
    def f(a, n=None, axis=-1, norm=None, out=None):
        a = sarray(a)
        x = np.moveaxis(a.view(rnd), axis, -1)
        fn = (lambda v, m: rf(v, n=m, norm=norm))
        M = np.array([rf(np.eye(x.shape[-1], dtype=complex)[i] if name in ('fft', 'ifft', 'irfft', 'hfft') else np.eye(x.shape[-1])[i], n=n, norm=norm) for i in range(x.shape[-1])]).T
        r = _dot(np.ascontiguousarray(x).view(SymArray), M.T)
        return np.moveaxis(r, -1, axis)
    return f
for _n in ('fft', 'ifft', 'rfft', 'irfft'):
    FN['fft.'+_n] = _mkfft(_n)
FN['fft.fftshift'] = lambda x, axes=None: _wrapall(np.fft.fftshift(sarray(x).view(rnd), axes), sarray(x)._k)
FN['fft.ifftshift'] = lambda x, axes=None: _wrapall(np.fft.ifftshift(sarray(x).view(rnd), axes), sarray(x)._k)

@impl('zeros_like')
def _zeros_like(a, dtype=None, **kw):
    return zeros(kw.get('shape') or _shape(a), dtype=_like_dtype(a, dtype))
@impl('ones_like')
def _ones_like(a, dtype=None, **kw):
    return ones(kw.get('shape') or _shape(a), dtype=_like_dtype(a, dtype))
@impl('empty_like')
def _empty_like(a, dtype=None, **kw):
    return zeros(kw.get('shape') or _shape(a), dtype=_like_dtype(a, dtype))
@impl('full_like')
def _full_like(a, fill, dtype=None, **kw):
    return full(_shape(a), fill, dtype=_like_dtype(a, dtype))
def _like_dtype(a, dtype):
    if dtype is not None:
        return dtype
    k = kind_of(a)
    return _DT.get(k, _DT['f'])
@impl('result_type')
def _result_type(*a):
    return _DT[functools.reduce(_promote, [kind_of(x) if not isinstance(x, (type, np.dtype)) else kind_of_dtype(x) for x in a])]
@impl('may_share_memory', 'shares_memory')
def _share(a, b, **k):
    return np.may_share_memory(base(a), base(b))
@impl('copyto')
def _copyto(dst, src, casting=None, where=True):
    if where is True:
        dst[...] = src
    else:
        dst[where] = np.broadcast_to(src, dst.shape)[where] if np.ndim(src) else src
@impl('putmask')
def _putmask(a, mask, values):
    a[mask] = np.broadcast_to(values, a.shape)[mask] if np.ndim(values) else values
@impl('apply_along_axis')
def _apply(f, axis, arr, *a, **k):
    arr = sarray(arr)
    m = np.moveaxis(arr, axis, -1)
    out = None
    for i in np.ndindex(m.shape[:-1]):
        r = f(m[i], *a, **k)
        if out is None:
            out = zeros(m.shape[:-1] + np.shape(r))
        out[i] = r
    return np.moveaxis(out, -1, axis) if np.ndim(r) else out
@impl('polyval')
def _polyval(p, x):
    y = 0
    for c in sarray(p).flat_elems():
        y = y*x + c
    return y
@impl('ndenumerate')
def _ndenum(a):
    for i in np.ndindex(*_shape(a)):
        yield i, a[i]
@impl('array_repr', 'array_str', 'array2string')
def _arr_str(a, *k, **kw):
    return str(base(a).tolist())
@impl('median', 'nanmedian')
def _median(a, axis=None, **kw):
    a = _sort(a, axis)
    if axis is None:
        n = len(a)
        return a[n//2] if n % 2 else (a[n//2-1] + a[n//2])*0.5
    n = a.shape[axis]
    return np.take(a, n//2, axis=axis) if n % 2 else (np.take(a, n//2-1, axis=axis)+np.take(a, n//2, axis=axis))*0.5

# ---- masked arrays: only stripping is supported
@impl('ma.getdata')
def _getdata(a, subok=True):
    return a

# ------------------------------------------------------------------ creation
def _mk(shape, v, k):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,) if not isinstance(shape, rnd) else tuple(shape.tolist() if shape.ndim else [shape.item()])
    shape = tuple(s.__index__() for s in shape)
    a = np.empty(shape, dtype=object)
    a.fill(v)
    r = a.view(SymArray)
    r._k = k
    return r

_ZERO = {'f': 0.0, 'i': 0, 'b': False, 'c': 0j}
def _symbolic_kind(dtype):
    try:
        return kind_of_dtype(dtype)
    except TypeError:
        return None

def zeros(shape, dtype=None, order='C', **kw):
    k = _symbolic_kind(dtype)
    if k not in _ZERO:
        return np.zeros(shape, dtype=realtype(dtype))
    return _mk(shape, _ZERO[k], k)
def ones(shape, dtype=None, order='C', **kw):
    k = _symbolic_kind(dtype)
    if k not in _ZERO:
        return np.ones(shape, dtype=realtype(dtype))
    return _mk(shape, cast_scalar(1, k), k)
def full(shape, fill_value, dtype=None, order='C', **kw):
    k = kind_of(fill_value) if dtype is None else _symbolic_kind(dtype)
    if k not in _ZERO:
        return np.full(shape, fill_value, dtype=realtype(dtype))
    r = _mk(shape, _ZERO[k], k)
    r[...] = fill_value
    return r
def array(obj, dtype=None, copy=True, ndmin=0, **kw):
    if dtype is not None and _symbolic_kind(dtype) not in _ZERO:
        return np.array(floatify(obj), dtype=realtype(dtype), ndmin=ndmin)
    if dtype is not None and _is_text(obj):
        to = {'i': symint, 'f': symfloat}.get(_symbolic_kind(dtype))
        if to is not None:
            r = np.array(obj, dtype=object)
            obj = sarray([to(x) for x in r.ravel()]).reshape(r.shape) if r.ndim else to(obj)
    if not _is_numeric_like(obj):
        r = np.array(obj, dtype=realtype(dtype), ndmin=ndmin)
        if r.dtype.kind not in 'biufcO':
            return r
        if r.dtype.kind == 'O':
            return r
        return _ndmin(sarray(r), ndmin)
    r = sarray(obj)
    if dtype is not None:
        r = cast_array(r, _symbolic_kind(dtype))
    elif copy is not False and copy is not None:
        r = r.copy()
    return _ndmin(r, ndmin)
def _ndmin(r, ndmin):
    while r.ndim < ndmin:
        r = r[None]
    return r
def _is_text(x):
    return isinstance(x, (str, bytes)) or (isinstance(x, (list, tuple)) and len(x) > 0 and all(_is_text(y) for y in x)) or \
        (isinstance(x, rnd) and x.dtype.kind in 'US')
def _is_numeric_like(x):
    if isinstance(x, np.ma.MaskedArray):
        return False
    if isinstance(x, rnd):
        return x.dtype.kind in 'biufc' or (isinstance(x, SymArray)) or (x.dtype.kind == 'O' and all(_is_numeric_like(e) for e in x.flat))
    if isinstance(x, (Sym, SymBool)) or is_num(x):
        return True
    if isinstance(x, (list, tuple)):
        return all(_is_numeric_like(y) for y in x)
    if isinstance(x, range):
        return True
    return False
def asarray(obj, dtype=None, **kw):
    return array(obj, dtype=dtype, copy=False)

def realtype(dtype):
    if isinstance(dtype, type) and isinstance(dtype, ShimType):
        return dtype._real
    if dtype is symfloat:
        return float
    if dtype is symint:
        return int
    if isinstance(dtype, (tuple,)) and len(dtype) == 2:
        return (realtype(dtype[0]), dtype[1])
    if isinstance(dtype, list):
        return [(d[0], realtype(d[1])) + tuple(d[2:]) for d in dtype]
    if isinstance(dtype, dict):
        dd = dict(dtype)
        if 'formats' in dd:
            dd['formats'] = tuple(realtype(x) for x in dd['formats'])
        return dd
    return dtype

# ------------------------------------------------------------------ scalar types
class ShimType(type):
    """stands for a numpy scalar type: callable on symbolic values"""
    def __call__(cls, *args, **kw):
        if cls._real is None:
            return type.__call__(cls, *args, **kw)
        if not args:
            return cls._real()
        x = args[0]
        k = cls._kind
        if isinstance(x, (Sym, SymBool)):
            return cast_scalar(x, k)
        if isinstance(x, SymArray) or (isinstance(x, (list, tuple)) and has_sym(x)):
            r = cast_array(x, k)
            return r.item() if r.ndim == 0 else r
        if isinstance(x, (str, bytes)):
            v = parse_text(x)
            if v is not None:
                return cast_scalar(v, k)
        if isinstance(x, Fraction):
            return cls._real(RF(x)) if not E.exact else x
        if isinstance(x, (list, tuple)):
            return sarray(cls._real(x))
        return cls._real(*args, **kw)
    def __instancecheck__(cls, x):
        if cls._real is None:
            return False
        if isinstance(x, cls._real):
            return True
        return False
    def __subclasscheck__(cls, x):
        return issubclass(getattr(x, '_real', x), cls._real)
    def __eq__(cls, o):
        return cls is o or cls._real is o or (isinstance(o, np.dtype) and o == cls._real)
    def __hash__(cls):
        return hash(cls._real)
    @property
    def dtype(cls):
        return np.dtype(cls._real)
    def __getattr__(cls, n):
        return getattr(cls._real, n)

def _shimtype(real):
    k = np.dtype(real).kind
    return ShimType('shim_' + real.__name__, (), dict(_real=real,
        _kind={'u': 'i'}.get(k, k)))

def parse_text(x):
    """symbolic value standing behind a numeric literal of a text file"""
    if isinstance(x, bytes):
        try:
            x = x.decode()
        except UnicodeDecodeError:
            return None
    v = core.parse_number(x)
    if v is None:
        return None
    return literal_value(v)

def literal_value(v):
    """value read back from a literal; written literals carry rounding"""
    if isinstance(v, tuple):
        sym, spec, sign = v
        r = rounded(sym, spec)
        return r if sign > 0 else -r
    return v

_slack = {}
def rounded(sym, spec):
    import re
    full, single, spec = spec, spec.endswith('|f4'), spec.removesuffix('|f4')
    m = re.match(r'^.*?(?:\.(\d+))?([a-zA-Z]?)$', spec)
    prec, ty = m.group(1), m.group(2)
    if not single and ty in ('', 'd') and prec is None:
        return sym
    lo, hi = core.bounds(sym)
    if None in (lo, hi):
        raise EngineError('formatting of an unbounded value')
    mag = max(abs(lo), abs(hi))
    p = RI(prec) if prec is not None else 6
    if ty in ('f', 'F'):
        if not single and all(q == int(q) and all(E.atoms[i].sort == 'I' for i in k) for k, q in sym.t.items()):
            return sym
        h = 0.5*10.0**(-p)
    elif ty in ('e', 'E'):
        h = 0.5*10.0**(math.floor(math.log10(mag))-p) if mag > 0 else 0.0
        # integers times decimals within the digits printed
        if not single and h and all(E.atoms[i].sort == 'I' for k in sym.t for i in k) and \
                all(abs(q/(2*h) - round(q/(2*h))) < max(1e-2, min(0.1, 5e-16*abs(q/h))) for q in sym.t.values()):
            return sym
    elif ty in ('g', 'G', ''):
        h = 0.5*10.0**(math.floor(math.log10(mag))-max(p, 1)+1) if mag > 0 else 0.0
    else:
        raise EngineError(f'format {spec}')
    if single:
        h += mag*2.0**-24
    k = ('slack', core.mkey(sym.t), full)
    a = E.table.get(k)
    if a is None:
        a = E.table[k] = core.Atom(f'slack!{len(E.atoms)}', 'R', 'base', (), -h, h)
    return sym + Sym({(a.id,): 1})

class _SymNumMeta(type):
    def __instancecheck__(cls, x):
        if cls is symfloat:
            return isinstance(x, RF) or (isinstance(x, Sym) and not x.isint) or isinstance(x, Fraction)
        return (isinstance(x, RI)) or (isinstance(x, Sym) and x.isint)
    def __subclasscheck__(cls, x):
        return issubclass(x, RF if cls is symfloat else RI)
    def __eq__(cls, o):
        return cls is o or o is (RF if cls.__name__ == 'symfloat' else RI)
    def __hash__(cls):
        return hash(RF if cls.__name__ == 'symfloat' else RI)
    def __getattr__(cls, n):
        return getattr(RF if cls.__name__ == 'symfloat' else RI, n)
    @property
    def dtype(cls):
        return np.dtype(RF if cls.__name__ == 'symfloat' else RI)

class symfloat(metaclass=_SymNumMeta):
    """replacement for the builtin float in the code under test"""
    def __new__(cls, x=0.0):
        if isinstance(x, (Sym, SymBool)):
            return cast_scalar(x, 'f')
        if isinstance(x, SymArray):
            if x.ndim:
                raise TypeError('only 0-dimensional arrays can be converted to Python scalars')
            return cast_scalar(x.item(), 'f')
        if isinstance(x, (str, bytes)):
            v = parse_text(x)
            if v is not None:
                return cast_scalar(v, 'f')
        if isinstance(x, Fraction) and E.exact:
            return x
        return RF(x)

class symint(metaclass=_SymNumMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, (Sym, SymBool)):
            return cast_scalar(x, 'i')
        if isinstance(x, SymArray):
            if x.ndim:
                raise TypeError('only 0-dimensional arrays can be converted to Python scalars')
            return cast_scalar(x.item(), 'i')
        if isinstance(x, (str, bytes)) and not a:
            v = parse_text(x)
            if v is not None:
                if isinstance(v, Sym) and not v.isint:
                    raise ValueError(f'invalid literal for int(): {x!r}')
                return v
        return RI(x, *a)

# ------------------------------------------------------------------ shim module
class ShimModule(types.ModuleType):
    """proxy of a numerical module for the code under test"""
    def __init__(self, real, name, overrides, subs=()):
        super().__init__(name)
        self.__dict__['_real'] = real
        self.__dict__['__file__'] = getattr(real, '__file__', None)
        self.__dict__['__spec__'] = None
        self.__dict__['__path__'] = getattr(real, '__path__', [])
        for k, v in overrides.items():
            self.__dict__[k] = v
        for k, v in subs:
            self.__dict__[k] = v

    def __getattr__(self, n):
        v = getattr(self.__dict__['_real'], n)
        if isinstance(v, types.ModuleType):
            return v
        if isinstance(v, type):
            if issubclass(v, np.generic) and not issubclass(v, (np.datetime64, np.timedelta64, np.flexible)) and v not in (np.generic, np.number, np.integer, np.floating, np.inexact, np.complexfloating, np.signedinteger, np.unsignedinteger, np.object_):
                v = _shimtype(v)
                self.__dict__[n] = v
            return v
        if callable(v):
            v = _callable(v)
            self.__dict__[n] = v
        return v

def _has_lib(x, depth=0):
    if isinstance(x, (Sym, SymBool, SymArray)):
        return True
    if isinstance(x, (list, tuple)) and depth < 3:
        return any(_has_lib(y, depth+1) for y in x)
    return False

def _real_kw(kw):
    if 'dtype' in kw:
        kw = dict(kw)
        kw['dtype'] = realtype(kw['dtype'])
    return kw

def _callable(f):
    """function of the real module: symbolic arguments go to the dispatcher"""
    if isinstance(f, np.ufunc):
        class U:
            __name__ = f.__name__
            def __call__(self, *a, **k):
                if any(_has_lib(x) for x in a) or _has_lib(k.get('out')) or _has_lib(k.get('where')):
                    return ufunc_dispatch(f, '__call__', a, k)
                return f(*a, **_real_kw(k))
            def __getattr__(self, n):
                m = getattr(f, n)
                if n in ('reduce', 'accumulate', 'outer', 'at'):
                    def g(*a, **k):
                        if any(_has_lib(x) for x in a):
                            return ufunc_dispatch(f, n, a, k)
                        return m(*a, **_real_kw(k))
                    return g
                return m
        return U()
    @functools.wraps(f, updated=())
    def g(*a, **k):
        if any(_has_lib(x) for x in a) or any(_has_lib(x) for x in k.values()):
            return function_dispatch(f, a, k)
        return f(*[realtype(x) if isinstance(x, type) else x for x in a], **_real_kw(k))
    return g

def _concrete_callable(f):
    """scipy function: linear if registered, otherwise concrete arguments"""
    @functools.wraps(f, updated=())
    def g(*a, **k):
        return f(*[floatify(x) for x in a], **{n: floatify(v) for n, v in k.items()})
    return g

class RectBivariateSpline:
    """interpolating spline on concrete nodes: linear in the values"""
    def __init__(self, x, y, z, kx=3, ky=3):
        from scipy.interpolate import RectBivariateSpline as S
        self.x, self.y = np.asarray(floatify(x), dtype=float), np.asarray(floatify(y), dtype=float)
        self.z = sarray(z)
        if self.z.shape != (len(self.x), len(self.y)):
            raise ValueError('z must have shape (len(x), len(y))')
        self.basis = []
        for i in np.ndindex(*self.z.shape):
            u = np.zeros(self.z.shape)
            u[i] = 1.0
            self.basis.append((i, S(self.x, self.y, u, kx=kx, ky=ky)))
    def ev(self, xi, yi):
        xi, yi = np.asarray(floatify(xi), dtype=float), np.asarray(floatify(yi), dtype=float)
        r = 0.0
        for i, b in self.basis:
            r = r + self.z[i]*sarray(b.ev(xi, yi))
        return r

class ScipyShim(ShimModule):
    def __getattr__(self, n):
        v = getattr(self.__dict__['_real'], n)
        if isinstance(v, types.ModuleType):
            return sys.modules.get('symshim.' + v.__name__, v)
        if callable(v) and not isinstance(v, type):
            if hasattr(v, 'ppf'):
                return _DistProxy(v)
            v = _concrete_callable(v)
            self.__dict__[n] = v
        return v

class _DistProxy:
    def __init__(self, d):
        self._d = d
    def __getattr__(self, n):
        v = getattr(self._d, n)
        return _concrete_callable(v) if callable(v) else v

def loadtxt(fname, *args, **kw):
    """real numpy.loadtxt, then literals replaced by symbolic values"""
    kw = _real_kw(kw)
    if hasattr(fname, 'read') or isinstance(fname, (list, tuple)) or True:
        r = np.loadtxt(fname, *args, **kw)
    return _replace_literals(r)

def genfromtxt(fname, *args, **kw):
    return _replace_literals(np.genfromtxt(fname, *args, **_real_kw(kw)))

def _replace_literals(r):
    """float arrays read from text: map literals to the values they stand for"""
    if not isinstance(r, rnd) or not E.literals:
        return r
    if r.dtype.names:
        out = StructArray({n: _replace_literals(r[n]) for n in r.dtype.names}, r.dtype.names)
        return out
    if r.dtype.kind in 'iu':
        if not any(E.literals.get(core.REAL_FLOAT(x)) is not None for x in r.flat):
            return r
    elif r.dtype.kind not in 'f':
        return r
    single = r.dtype.kind == 'f' and r.dtype.itemsize == 4
    a = sarray(r)
    b = a.view(rnd)
    for i in np.ndindex(b.shape):
        v = E.literals.get(('f4', core.REAL_FLOAT(b[i])) if single else b[i])
        if v is not None:
            b[i] = literal_value(v)
    return a

class StructArray(dict):
    """structured array read from text"""
    def __init__(self, d, names):
        super().__init__(d)
        self.names = names
    def __getitem__(self, k):
        if isinstance(k, str):
            return dict.__getitem__(self, k)
        return StructArray({n: v[k] for n, v in self.items()}, self.names)
    def __len__(self):
        v = next(iter(self.values()))
        return len(v)
    @property
    def size(self):
        return next(iter(self.values())).size
    @property
    def shape(self):
        return next(iter(self.values())).shape
    @property
    def ndim(self):
        return next(iter(self.values())).ndim
    @property
    def dtype(self):
        class D: pass
        d = D()
        d.names = self.names
        return d

def arange(*a, **k):
    k = _real_kw(k)
    if any(isinstance(x, (Sym,)) for x in a):
        a = [x.__index__() if isinstance(x, Sym) and x.isint else x for x in a]
        if any(isinstance(x, Sym) for x in a):
            st, en, dx = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
            n = core.ceil(core.divide(en - st, dx))
            n = n.__index__() if isinstance(n, Sym) else int(n)
            return sarray([st + dx*i for i in range(max(n, 0))])
    a = [x.item() if isinstance(x, SymArray) else x for x in a]
    a = [RF(x) if isinstance(x, Fraction) else x for x in a]
    return np.arange(*a, **k).view(PlainArray)
class PlainArray(np.ndarray):
    """concrete numbers, indexable with symbolic arrays"""
    def __getitem__(self, key):
        if isinstance(key, SymArray) or (isinstance(key, tuple) and any(isinstance(k, SymArray) for k in key)):
            return sarray(self)[key]
        return rnd.__getitem__(self, key)
def linspace(start, stop, num=50, endpoint=True, **kw):
    if _has_lib(start) or _has_lib(stop):
        num = int(num)
        d = core.divide(stop - start, (num - 1) if endpoint else num)
        return sarray([start + d*i for i in range(num)])
    return np.linspace(start, stop, num, endpoint=endpoint, **_real_kw(kw))
def isscalar(x):
    return isinstance(x, (Sym, SymBool)) or np.isscalar(x)
def identity(n, dtype=None):
    return sarray(np.eye(n))
def eye(*a, **k):
    return sarray(np.eye(*a, **_real_kw(k)))
def finfo(t):
    return np.finfo(realtype(t) if not isinstance(t, np.dtype) else t)
def iinfo(t):
    return np.iinfo(realtype(t))
def dtype_(spec, *a, **k):
    return np.dtype(realtype(spec), *a, **k)
def fromiter(it, dtype=None, count=-1, **k):
    return array(list(it), dtype=dtype)
def vectorize(pyfunc, *a, **k):
    def g(*args):
        r = np.frompyfunc(pyfunc, len(args), 1)(*[_obj(x) for x in args])
        return wrap(r, 'f')
    return g
class _SR:
    """np.r_ / np.c_"""
    def __init__(self, real, cols):
        self.real, self.cols = real, cols
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(_has_lib(k) for k in key):
            parts = [sarray(k) if not isinstance(k, slice) else sarray(self.real[k]) for k in key]
            if self.cols:
                return np.column_stack(parts)
            return np.concatenate([np.atleast_1d(p) for p in parts])
        return self.real[key if len(key) > 1 else key[0]]

def savetxt(fname, X, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='', comments='# ', **k):
    raise EngineError('savetxt')

def make_shims():
    """numpy, scipy, math shims for the import of the code under test"""
    linalg = ShimModule(np.linalg, 'numpy.linalg', {})
    fft = ShimModule(np.fft, 'numpy.fft', {})
    ov = dict(zeros=zeros, ones=ones, empty=zeros, full=full, array=array,
        asarray=asarray, asanyarray=asarray, ascontiguousarray=asarray,
        arange=arange, linspace=linspace, isscalar=isscalar, identity=identity, eye=eye,
        finfo=finfo, iinfo=iinfo, dtype=dtype_, loadtxt=loadtxt, genfromtxt=genfromtxt,
        linalg=linalg, fft=fft, fromiter=fromiter, vectorize=vectorize, savetxt=savetxt,
        ndarray=np.ndarray, r_=_SR(np.r_, False), c_=_SR(np.c_, True),
        zeros_like=_zeros_like, ones_like=_ones_like, empty_like=_empty_like,
        full_like=_full_like, longdouble=_shimtype(np.float64),
        tri=lambda *a, **k: sarray(np.tri(*a, **_real_kw(k))))
    if np.longdouble is not np.float64:
        ov['longdouble'] = _shimtype(np.longdouble)
    shim = ShimModule(np, 'numpy', ov)
    ma = ShimModule(np.ma, 'numpy.ma', dict(zeros=ma_zeros, array=ma_array,
        isMA=lambda x: isinstance(x, (np.ma.MaskedArray, SymMasked)),
        isMaskedArray=lambda x: isinstance(x, (np.ma.MaskedArray, SymMasked)),
        MaskedArray=SymMasked, masked_array=ma_array))
    shim.__dict__['ma'] = ma
    return {'numpy': shim, 'numpy.linalg': linalg, 'numpy.fft': fft, 'numpy.ma': ma}

class SymMasked:
    """small stand-in for a masked array holding symbolic data"""
    def __init__(self, data, mask=False, fill_value=None, dtype=None, **kw):
        self.data = sarray(data).copy()
        self.mask = np.broadcast_to(np.array(floatify(mask) if not has_sym(mask) else False, dtype=bool), self.data.shape).copy()
        self.fill_value = fill_value
    shape = property(lambda s: s.data.shape)
    ndim = property(lambda s: s.data.ndim)
    size = property(lambda s: s.data.size)
    dtype = property(lambda s: s.data.dtype)
    def __getitem__(self, k):
        if not np.any(self.mask):
            return self.data[k]
        return SymMasked(self.data[k], self.mask[k], self.fill_value)
    def __setitem__(self, k, v):
        if isinstance(v, SymMasked):
            self.data[k] = v.data
            self.mask[k] = v.mask
        else:
            self.data[k] = v
            self.mask[k] = False
    def __len__(self):
        return len(self.data)
    def filled(self, v=None):
        r = self.data.copy()
        r[self.mask] = self.fill_value if v is None else v
        return r
    def copy(self):
        return SymMasked(self.data, self.mask, self.fill_value)

def ma_zeros(shape, dtype=None, fill_value=None, **kw):
    return SymMasked(zeros(shape, dtype=dtype), False, fill_value)
def ma_array(data, mask=False, dtype=None, fill_value=None, **kw):
    return SymMasked(data, mask, fill_value)

# math module: symbolic aware
def make_math():
    ov = {}
    def two(sf, rf):
        def g(*a):
            if any(isinstance(x, (Sym, SymBool)) for x in a):
                return sf(*a)
            return rf(*[x.item() if isinstance(x, SymArray) else x for x in a])
        return g
    for n, f in dict(floor=core.floor, ceil=core.ceil, sqrt=core.sqrt, cos=core.cos,
            sin=core.sin, tan=core.tan, exp=core.exp, log=lambda x, *b: core.function('log', x) if not b else core.divide(core.function('log', x), math.log(b[0])),
            fabs=core.absolute, hypot=core.hypot, trunc=core.trunc, fmod=core.fmod,
            atan2=_arctan2, radians=lambda x: x*(math.pi/180), degrees=lambda x: x*(180/math.pi),
            isnan=lambda x: False, isinf=lambda x: False, isfinite=lambda x: True,
            pow=core.power).items():
        ov[n] = two(f, getattr(math, n))
    ov['fsum'] = lambda x: linsum(list(x))
    m = types.ModuleType('math')
    m.__dict__.update({k: getattr(math, k) for k in dir(math) if not k.startswith('__')})
    m.__dict__.update(ov)
    return m
