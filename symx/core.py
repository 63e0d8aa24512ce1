"""
Symbolic values for executing the real (numpy) code of gravity_toolkit.

A Sym is a polynomial normal form {monomial: coefficient} over *atoms*.
Atoms are either base variables (the symbolic inputs, of sort Real or Int)
or defined terms (1/p, sqrt(p), floor(p), ite(c,a,b), cos/sin/exp/... of p)
whose meaning is given to the solver by defining constraints.
A SymBool is a formula over Syms; asking for its truth value forks the
execution (see Explorer).
"""
import math
import struct
import time as _time
from fractions import Fraction
import z3

REAL_FLOAT = float
REAL_INT = int

class EngineError(Exception):
    """the engine cannot represent an operation: the run is inconclusive"""

class PathAbort(BaseException):
    """current path is infeasible or the harness assumption failed"""

class Inconclusive(Exception):
    """solver gave up"""

# ---------------------------------------------------------------- engine state
class Engine:
    def __init__(self):
        self.reset(False)
        self.stats = dict(queries=0, solver_s=0.0, sat=0, unsat=0, unknown=0,
            forks=0, feas=0)
        self.timeout_ms = 60000

    def reset(self, exact):
        self.exact = exact
        self.atoms = []
        self.table = {}
        self.explorer = None
        self.literals = {}
        self.litcount = 0
        self.cos_base = {}

E = Engine()

class Atom:
    __slots__ = ('id','name','sort','kind','args','z','lo','hi','cons',
        'deps','fn')
    def __init__(self, name, sort, kind, args, lo, hi):
        self.id = len(E.atoms)
        self.name = name
        self.sort = sort
        self.kind = kind
        self.args = args
        self.lo = lo
        self.hi = hi
        self.cons = None
        self.z = z3.Int(name) if sort == 'I' else z3.Real(name)
        self.deps = None
        E.atoms.append(self)

def base_var(name, sort='R', lo=None, hi=None):
    k = ('base', name)
    if k not in E.table:
        E.table[k] = Atom(name, sort, 'base', (), lo, hi)
    return Sym({(E.table[k].id,): 1})

def outward(lo, hi):
    """float bounds rounded outwards"""
    if isinstance(lo, REAL_FLOAT):
        lo = lo - 1e-12*abs(lo)
    if isinstance(hi, REAL_FLOAT):
        hi = hi + 1e-12*abs(hi)
    return lo, hi

def _derived(kind, key, args, sort='R', lo=None, hi=None):
    k = (kind, key)
    a = E.table.get(k)
    if a is None:
        if sort == 'R':
            lo, hi = outward(lo, hi)
        a = Atom(f'{kind}!{len(E.atoms)}', sort, kind, args, lo, hi)
        E.table[k] = a
    return a

NAN = float('nan')

def is_num(x):
    if isinstance(x, (Sym, SymBool)):
        return False
    return isinstance(x, (int, float, Fraction, complex)) or \
        (hasattr(x, 'dtype') and getattr(x, 'shape', None) == ()
         and x.dtype.kind in 'biufc' and not hasattr(x, '_k'))

def norm_num(x):
    """convert any numeric scalar into a python number"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, Fraction)):
        return x
    if isinstance(x, (REAL_FLOAT,)) and type(x) is REAL_FLOAT:
        return x
    if isinstance(x, complex) and type(x) is complex:
        return x
    if hasattr(x, 'dtype'):
        k = x.dtype.kind
        if k in 'biu':
            return REAL_INT(x)
        if k == 'f':
            return REAL_FLOAT(x)
        if k == 'c':
            return complex(x)
    if isinstance(x, REAL_FLOAT):
        return REAL_FLOAT(x)
    raise EngineError(f'not a number: {type(x)}')

def is_nan(x):
    if isinstance(x, REAL_FLOAT):
        return x != x
    if isinstance(x, complex):
        return x != x
    return False

def is_inf(x):
    return isinstance(x, REAL_FLOAT) and (x == math.inf or x == -math.inf)

def coef(x):
    x = norm_num(x)
    if E.exact:
        if isinstance(x, REAL_FLOAT):
            return nice(x)
        return x
    if isinstance(x, Fraction):
        return REAL_FLOAT(x)
    return x

_nice = {}
def nice(x):
    """rational meant by a double: the short decimal or simple fraction it
    rounds (30.6001, 1/7), otherwise its exact binary value"""
    r = _nice.get(x)
    if r is None:
        r = Fraction(repr(x))
        if r.denominator > 10**9:
            q = Fraction(x).limit_denominator(10**5)
            if REAL_FLOAT(q) == x or abs(REAL_FLOAT(q) - x) <= 2e-16*abs(x):
                r = q
            else:
                r = Fraction(x)
        if r.denominator == 1:
            r = r.numerator
        _nice[x] = r
    return r

def _rk(c):
    if isinstance(c, complex):
        return (_rk(c.real), _rk(c.imag))
    if isinstance(c, REAL_FLOAT):
        return REAL_FLOAT('%.10e' % c) + 0.0
    return c

def mkey(t):
    return frozenset((m, _rk(c)) for m, c in t.items())

# reduction of products: atom id -> rule for the square of the atom
_SQ = {}

def demote(t):
    """polynomial dict -> Sym or python number"""
    if not t:
        return 0 if E.exact else 0.0
    if len(t) == 1 and () in t:
        c = t[()]
        if isinstance(c, Fraction):
            return c if c.denominator != 1 else c.numerator
        return c
    return Sym(t)

def _mul_mono(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    return tuple(sorted(m1 + m2))

def _reduce(t):
    """apply rewriting rules sqrt(p)^2 -> p, a*(1/a) -> 1, s^2 -> 1-c^2"""
    again = False
    for m in t:
        if len(m) > 1 and _reducible(m) is not None:
            again = True
            break
    if not again:
        return t
    out = {}
    work = list(t.items())
    while work:
        m, c = work.pop()
        r = _reducible(m) if len(m) > 1 else None
        if r is None:
            v = out.get(m)
            v = c if v is None else v + c
            if v == 0:
                out.pop(m, None)
            else:
                out[m] = v
        else:
            rest, poly = r
            for m2, c2 in poly.items():
                work.append((_mul_mono(rest, m2), c*c2))
    return out

def _reducible(m):
    prev = None
    for i, a in enumerate(m):
        at = E.atoms[a]
        if at.kind in ('sqrt', 'sin') and prev == a:
            rest = m[:i-1] + m[i+1:]
            if at.kind == 'sqrt':
                return rest, as_terms(at.args[0])
            # sin^2 = 1 - cos^2
            ca = at.args[1]
            return rest, {(): 1, (ca.id, ca.id): -1}
        if at.kind == 'inv':
            p = at.args[0]
            # the inverse of a single atom cancels with that atom
            if len(p.t) == 1:
                (pm, pc), = p.t.items()
                if len(pm) == 1 and pm[0] in m:
                    l = list(m)
                    l.remove(pm[0])
                    l.remove(a)
                    return tuple(l), {(): 1/pc if not isinstance(pc, int) else (Fraction(1, pc) if E.exact else 1.0/pc)}
        prev = a
    return None

def as_terms(x):
    if isinstance(x, Sym):
        return x.t
    if isinstance(x, SymBool):
        return as_terms(bool_to_num(x))
    c = coef(x)
    return {(): c} if c != 0 else {}

def bool_to_num(b):
    if b.k == 'const':
        return 1 if b.a else 0
    return ite(b, 1, 0)

class Sym:
    __slots__ = ('t', '_z')
    __array_priority__ = 1e6

    def __init__(self, t):
        self.t = t
        self._z = None

    # ---- numpy protocols (a scalar Sym meets arrays through these)
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import nps
        return nps.ufunc_dispatch(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import nps
        return nps.function_dispatch(func, args, kwargs)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise EngineError('pickle of symbolic value')

    # ---- array-scalar like interface
    ndim = 0
    shape = ()
    size = 1
    def item(self, *a):
        return self
    def copy(self, *a, **k):
        return self
    def squeeze(self, *a, **k):
        return self
    def astype(self, dtype, *a, **k):
        from . import nps
        return nps.cast_scalar(self, nps.kind_of_dtype(dtype))
    def sum(self, *a, **k):
        return self
    mean = max = min = sum
    def flatten(self, *a, **k):
        from . import nps
        return nps.sarray([self])
    ravel = flatten
    def tolist(self):
        return self
    def reshape(self, *shape, **k):
        from . import nps
        return nps.sarray([self]).reshape(*shape)
    @property
    def dtype(self):
        from . import nps
        return nps.real_dtype('i' if self.isint else ('c' if self.iscomplex else 'f'))

    @property
    def isint(self):
        at = E.atoms
        for m, c in self.t.items():
            if isinstance(c, Fraction):
                if c.denominator != 1:
                    return False
            elif not isinstance(c, int):
                return False
            for a in m:
                if at[a].sort != 'I':
                    return False
        return True

    @property
    def iscomplex(self):
        return any(isinstance(c, complex) for c in self.t.values())

    # ---- arithmetic
    def __add__(self, o):
        if isinstance(o, SymBool):
            o = bool_to_num(o)
        if not isinstance(o, Sym):
            if not is_num(o):
                return NotImplemented
            if is_nan(norm_num(o)) or is_inf(norm_num(o)):
                return norm_num(o)
            c = coef(o)
            if c == 0:
                return self
            t = dict(self.t)
            v = t.get((), 0) + c
            if v == 0:
                t.pop((), None)
            else:
                t[()] = v
            return demote(t)
        a, b = self.t, o.t
        if len(a) < len(b):
            a, b = b, a
        t = dict(a)
        for m, c in b.items():
            v = t.get(m)
            if v is None:
                t[m] = c
            else:
                v = v + c
                if v == 0:
                    del t[m]
                else:
                    t[m] = v
        return demote(t)
    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, SymBool):
            o = bool_to_num(o)
        if isinstance(o, Sym):
            t = dict(self.t)
            for m, c in o.t.items():
                v = t.get(m)
                if v is None:
                    t[m] = -c
                else:
                    v = v - c
                    if v == 0:
                        del t[m]
                    else:
                        t[m] = v
            return demote(t)
        if not is_num(o):
            return NotImplemented
        return self.__add__(-norm_num(o))

    def __rsub__(self, o):
        if not is_num(o):
            return NotImplemented
        return (-self).__add__(o)

    def __mul__(self, o):
        if isinstance(o, SymBool):
            return ite(o, self, 0)
        if not isinstance(o, Sym):
            if not is_num(o):
                return NotImplemented
            o = norm_num(o)
            if is_nan(o):
                return o
            if is_inf(o):
                return sym_times_inf(self, o)
            c = coef(o)
            if c == 0:
                return 0 if isinstance(c, int) else 0.0
            if c == 1 and not isinstance(c, complex):
                return self
            return Sym({m: v*c for m, v in self.t.items()})
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mul_mono(m1, m2)
                v = t.get(m)
                v = c1*c2 if v is None else v + c1*c2
                if v == 0:
                    t.pop(m, None)
                else:
                    t[m] = v
        return demote(_reduce(t))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return divide(self, o)

    def __rtruediv__(self, o):
        if not is_num(o):
            return NotImplemented
        return divide(o, self)

    def __floordiv__(self, o):
        return floor(divide(self, o))

    def __rfloordiv__(self, o):
        return floor(divide(o, self))

    def __mod__(self, o):
        return mod(self, o)

    def __rmod__(self, o):
        if not is_num(o):
            return NotImplemented
        return mod(o, self)

    def __divmod__(self, o):
        q = floor(divide(self, o))
        return (q, self - q*o)

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __abs__(self):
        return absolute(self)

    # ---- rounding
    def __floor__(self):
        return floor(self)
    def __ceil__(self):
        return ceil(self)
    def __trunc__(self):
        return trunc(self)
    def __round__(self, n=None):
        return sround(self, n or 0)
    def floor(self):
        return floor(self)
    def ceil(self):
        return ceil(self)
    def is_integer(self):
        return cmp('==', self - floor(self))

    # ---- complex
    @property
    def real(self):
        if not self.iscomplex:
            return self
        return demote({m: (c.real if isinstance(c, complex) else c)
            for m, c in self.t.items() if not isinstance(c, complex) or c.real != 0})
    @property
    def imag(self):
        return demote({m: c.imag for m, c in self.t.items()
            if isinstance(c, complex) and c.imag != 0})
    def conjugate(self):
        if not self.iscomplex:
            return self
        return Sym({m: (c.conjugate() if isinstance(c, complex) else c)
            for m, c in self.t.items()})
    conj = conjugate

    # ---- comparisons
    def __lt__(self, o):
        return compare('<', self, o)
    def __le__(self, o):
        return compare('<=', self, o)
    def __gt__(self, o):
        return compare('<', o, self, rev=True)
    def __ge__(self, o):
        return compare('<=', o, self, rev=True)
    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes, tuple, list, dict)):
            return False
        return compare('==', self, o)
    def __ne__(self, o):
        if o is None or isinstance(o, (str, bytes, tuple, list, dict)):
            return True
        return compare('!=', self, o)
    def __hash__(self):
        return hash(mkey(self.t))

    def __bool__(self):
        return bool(compare('!=', self, 0))

    # ---- conversions to machine values: only by case split or if constant
    def __float__(self):
        raise EngineError('float() of a symbolic value')
    def __complex__(self):
        raise EngineError('complex() of a symbolic value')
    def __int__(self):
        return concretize(trunc(self))
    def __index__(self):
        if not self.isint:
            raise TypeError('symbolic real used as an index')
        return concretize(self)

    def __repr__(self):
        return '<' + ' + '.join(f'{c}*{"*".join(E.atoms[a].name for a in m)}'
            if m else str(c) for m, c in list(self.t.items())[:4]) + '>'
    def __str__(self):
        return self.__format__('')
    def __format__(self, spec):
        return format_literal(self, spec)

# ---------------------------------------------------------------- booleans
class SymBool:
    __slots__ = ('k', 'a', '_z')
    __array_priority__ = 1e6
    ndim = 0
    shape = ()
    size = 1
    def __init__(self, k, a):
        self.k = k
        self.a = a
        self._z = None
    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import nps
        return nps.ufunc_dispatch(ufunc, method, inputs, kwargs)
    def __array_function__(self, func, types, args, kwargs):
        from . import nps
        return nps.function_dispatch(func, args, kwargs)
    def __copy__(self):
        return self
    def __deepcopy__(self, memo):
        return self
    def __bool__(self):
        return branch(self)
    def __invert__(self):
        return bnot(self)
    def __and__(self, o):
        return band(self, o)
    __rand__ = __and__
    def __or__(self, o):
        return bor(self, o)
    __ror__ = __or__
    def __xor__(self, o):
        return bor(band(self, bnot(o)), band(bnot(self), o))
    __rxor__ = __xor__
    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)) or (hasattr(o, 'dtype') and o.dtype.kind == 'b'):
            return bnot(self ^ o)
        return compare('==', bool_to_num(self), o)
    def __ne__(self, o):
        return bnot(self == o)
    def __hash__(self):
        return id(self)
    def __add__(self, o):
        return bool_to_num(self) + o
    __radd__ = __add__
    def __sub__(self, o):
        return bool_to_num(self) - o
    def __rsub__(self, o):
        return o - bool_to_num(self)
    def __mul__(self, o):
        return ite(self, o, 0)
    __rmul__ = __mul__
    def __lt__(self, o):
        return compare('<', bool_to_num(self), o)
    def __gt__(self, o):
        return compare('<', o, bool_to_num(self))
    def __le__(self, o):
        return compare('<=', bool_to_num(self), o)
    def __ge__(self, o):
        return compare('<=', o, bool_to_num(self))
    def __neg__(self):
        return -bool_to_num(self)
    def astype(self, dtype, *a, **k):
        from . import nps
        if nps.kind_of_dtype(dtype) == 'b':
            return self
        return bool_to_num(self)
    def item(self, *a):
        return self
    def all(self, *a, **k):
        return self
    any = all
    def __index__(self):
        return 1 if bool(self) else 0
    __int__ = __index__
    def __repr__(self):
        return f'<SymBool {self.k}>'

TRUE = SymBool('const', True)
FALSE = SymBool('const', False)

def tobool(b):
    """anything boolean -> SymBool or python bool"""
    if isinstance(b, SymBool):
        return b.a if b.k == 'const' else b
    if isinstance(b, Sym):
        return compare('!=', b, 0)
    return bool(b)

def bnot(b):
    b = tobool(b)
    if isinstance(b, bool):
        return not b
    if b.k == 'not':
        return b.a
    if b.k == 'cmp':
        op, d = b.a
        if op == '==':
            return SymBool('cmp', ('!=', d))
        if op == '!=':
            return SymBool('cmp', ('==', d))
        if op == '<':     # not d<0  <=> -d<=0
            return SymBool('cmp', ('<=', -d))
        if op == '<=':
            return SymBool('cmp', ('<', -d))
    return SymBool('not', b)

def band(*bs):
    l = []
    for b in bs:
        b = tobool(b)
        if b is False:
            return False
        if b is True:
            continue
        l.append(b)
    if not l:
        return True
    return l[0] if len(l) == 1 else SymBool('and', tuple(l))

def bor(*bs):
    l = []
    for b in bs:
        b = tobool(b)
        if b is True:
            return True
        if b is False:
            continue
        l.append(b)
    if not l:
        return False
    return l[0] if len(l) == 1 else SymBool('or', tuple(l))

def cmp(op, d):
    """formula d op 0"""
    if not isinstance(d, Sym):
        d = norm_num(d)
        return {'<': lambda x: x < 0, '<=': lambda x: x <= 0,
            '==': lambda x: x == 0, '!=': lambda x: x != 0}[op](d)
    lo, hi = bounds(d)
    if op == '<':
        if hi is not None and hi < 0:
            return True
        if lo is not None and lo >= 0:
            return False
    elif op == '<=':
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
    elif (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return op == '!='
    return SymBool('cmp', (op, d))

def compare(op, a, b, rev=False):
    if isinstance(a, SymBool):
        a = bool_to_num(a)
    if isinstance(b, SymBool):
        b = bool_to_num(b)
    for x in (a, b):
        if hasattr(x, 'ndim') and x.ndim > 0:
            from . import nps
            import numpy as np
            uf = {'<': np.less, '<=': np.less_equal, '==': np.equal,
                '!=': np.not_equal}[op]
            return nps.ufunc_dispatch(uf, '__call__', (a, b), {})
    for x in (a, b):
        if not isinstance(x, Sym):
            if not is_num(x):
                if op == '==':
                    return False
                if op == '!=':
                    return True
                return NotImplemented
            if is_nan(norm_num(x)):
                return op == '!='
    if not isinstance(a, Sym) and is_inf(norm_num(a)):
        return {'<': a < 0, '<=': a < 0, '==': False, '!=': True}[op]
    if not isinstance(b, Sym) and is_inf(norm_num(b)):
        return {'<': b > 0, '<=': b > 0, '==': False, '!=': True}[op]
    d = a - b
    if isinstance(d, Sym) and not E.exact:
        # comparisons are taken modulo rounding of the coefficients
        sc = max([abs(c) for c in as_terms(a).values()] +
            [abs(c) for c in as_terms(b).values()])
        if sc > 0 and any(abs(c) <= 1e-14*sc for c in d.t.values()):
            # by the largest magnitudes of the terms
            size = {}
            for t in (as_terms(a), as_terms(b)):
                for m, c in t.items():
                    l, h = mono_bounds(m) if m else (1, 1)
                    size[m] = None if l is None or h is None else float(max(abs(l), abs(h)))
            if None not in size.values():
                sc = max(abs(c)*size[m] for t in (as_terms(a), as_terms(b)) for m, c in t.items())
                d = demote({m: c for m, c in d.t.items() if abs(c)*size.get(m, 1) > 1e-14*sc})
            else:
                d = demote({m: c for m, c in d.t.items() if abs(c) > 1e-14*sc})
        if isinstance(d, Sym) and d.iscomplex:
            r = band(cmp('==', d.real), cmp('==', d.imag))
            return r if op == '==' else bnot(r)
    elif not isinstance(d, Sym) and not E.exact:
        sc = max([abs(c) for c in as_terms(a).values()] +
            [abs(c) for c in as_terms(b).values()]+[0])
        if abs(d) <= 1e-14*sc and not (not isinstance(a, Sym) and not isinstance(b, Sym)):
            d = 0.0
    return cmp(op, d)

# ---------------------------------------------------------------- bounds
def _imul(a, b):
    (l1, h1), (l2, h2) = a, b
    if None in (l1, h1, l2, h2):
        if l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0:
            return (l1*l2, None if None in (h1, h2) else h1*h2)
        return (None, None)
    p = (l1*l2, l1*h2, h1*l2, h1*h2)
    return (min(p), max(p))

def mono_bounds(m):
    b = (1, 1)
    i = 0
    while i < len(m):
        j = i
        while j < len(m) and m[j] == m[i]:
            j += 1
        at = E.atoms[m[i]]
        n = j - i
        lo, hi = at.lo, at.hi
        if n > 1:
            if n % 2 == 0:
                if lo is not None and hi is not None:
                    mx = max(abs(lo), abs(hi))**n
                    mn = 0 if lo <= 0 <= hi else min(abs(lo), abs(hi))**n
                    r = (mn, mx)
                else:
                    r = (0, None)
            else:
                r = (None if lo is None else lo**n, None if hi is None else hi**n)
        else:
            r = (lo, hi)
        b = _imul(b, r)
        i = j
    return b

def bounds(x):
    if not isinstance(x, Sym):
        return (x, x)
    lo, hi = 0, 0
    ml = mh = 0.0
    for m, c in x.t.items():
        if isinstance(c, complex):
            return (None, None)
        if not m:
            l = h = c
        else:
            l, h = mono_bounds(m)
            if c < 0:
                l, h = (None if h is None else h*c), (None if l is None else l*c)
            else:
                l, h = (None if l is None else l*c), (None if h is None else h*c)
        lo = None if (lo is None or l is None) else lo + l
        hi = None if (hi is None or h is None) else hi + h
        if lo is None and hi is None:
            return (None, None)
        if not E.exact:
            ml += 0 if l is None else abs(l)
            mh += 0 if h is None else abs(h)
    if not E.exact and len(x.t) > 1:
        # rounding of the sum
        if isinstance(lo, REAL_FLOAT):
            lo = lo - 1e-14*ml
        if isinstance(hi, REAL_FLOAT):
            hi = hi + 1e-14*mh
    return (lo, hi)

# ---------------------------------------------------------------- operations
def sym_times_inf(s, o):
    lo, hi = bounds(s)
    if lo is not None and lo > 0:
        return o
    if hi is not None and hi < 0:
        return -o
    raise EngineError('symbolic times infinity')

def _split_scale(p):
    """p = c * q with q normalised (leading coefficient 1)"""
    m = min(p.t, key=lambda m: (len(m) == 0, m))
    c = p.t[m]
    if c == 1:
        return c, p
    if E.exact:
        c = Fraction(c)
        return c, Sym({k: Fraction(v)/c for k, v in p.t.items()})
    return c, Sym({k: v/c for k, v in p.t.items()})

def divide(a, b):
    if isinstance(a, SymBool):
        a = bool_to_num(a)
    if isinstance(b, SymBool):
        b = bool_to_num(b)
    if not isinstance(b, Sym):
        if not is_num(b):
            return NotImplemented
        b = norm_num(b)
        if isinstance(a, Sym):
            if is_nan(b):
                return b
            if is_inf(b):
                return 0.0
            if b == 0:
                return NAN
            c = coef(b)
            if E.exact:
                return Sym({m: Fraction(v)/c for m, v in a.t.items()})
            return Sym({m: v/c for m, v in a.t.items()})
        a = norm_num(a)
        if b == 0:
            if isinstance(a, complex) or isinstance(b, complex):
                return complex(NAN, NAN)
            if is_nan(a) or a == 0:
                return NAN
            neg = (a < 0) ^ (math.copysign(1.0, REAL_FLOAT(b)) < 0)
            return -math.inf if neg else math.inf
        if E.exact and not (isinstance(a, REAL_FLOAT) or isinstance(b, REAL_FLOAT)):
            r = Fraction(a)/Fraction(b)
            return r.numerator if r.denominator == 1 else r
        return a/b
    # symbolic denominator
    if bool(compare('==', b, 0)):
        if not isinstance(a, Sym):
            a = norm_num(a)
            if a == 0 or is_nan(a):
                return NAN
            return math.inf
        return NAN
    if not isinstance(a, Sym):
        a = norm_num(a)
        if a == 0:
            return 0 if isinstance(a, int) else 0.0
    cb, q = _split_scale(b)
    if isinstance(a, Sym):
        # proportional numerator
        ca, qa = _split_scale(a)
        if mkey(qa.t) == mkey(q.t):
            r = (Fraction(ca)/Fraction(cb)) if E.exact else ca/cb
            return r
        # divide monomial by monomial
        if len(q.t) == 1:
            (qm, _), = q.t.items()
            if len(qm) == 1 and all(qm[0] in m for m in qa.t):
                t = {}
                for m, c in a.t.items():
                    l = list(m)
                    l.remove(qm[0])
                    t[tuple(l)] = (Fraction(c)/Fraction(cb)) if E.exact else c/cb
                return demote(t)
    r = None
    if len(q.t) == 1 and len(next(iter(q.t))) > 1:
        # 1/(a*b) = (1/a)*(1/b)
        r = 1
        for a_id in next(iter(q.t)):
            r = r*_inverse(Sym({(a_id,): 1}))
    else:
        r = _inverse(q)
    res = r*a
    if E.exact:
        return res*(Fraction(1)/Fraction(cb))
    return res*(1.0/cb)

def _inverse(q):
    (m, c), = list(q.t.items())[:1]
    if len(q.t) == 1 and len(m) == 1 and E.atoms[m[0]].kind == 'inv':
        return E.atoms[m[0]].args[0]
    lo, hi = bounds(q)
    l = h = None
    if lo is not None and lo > 0:
        h = 1/lo if not isinstance(lo, int) else (Fraction(1, lo) if E.exact else 1.0/lo)
        l = 0
        if hi is not None:
            l = Fraction(1)/Fraction(hi) if E.exact else 1.0/hi
    elif hi is not None and hi < 0:
        l = Fraction(1)/Fraction(hi) if E.exact else 1.0/hi
        h = 0
        if lo is not None:
            h = Fraction(1)/Fraction(lo) if E.exact else 1.0/lo
    at = _derived('inv', mkey(q.t), (q,), 'R', l, h)
    return Sym({(at.id,): 1})

def floor(x):
    if not isinstance(x, Sym):
        x = norm_num(x)
        if isinstance(x, REAL_FLOAT):
            return REAL_FLOAT(math.floor(x)) if math.isfinite(x) else x
        if isinstance(x, Fraction):
            return x.numerator//x.denominator
        return x
    if x.isint:
        return x
    # split off the part that is an integer
    it, rt = {}, {}
    for m, c in x.t.items():
        cc = Fraction(c)
        if all(E.atoms[a].sort == 'I' for a in m):
            if m == () or cc.denominator == 1:
                n = cc.numerator//cc.denominator
                if n != 0:
                    it[m] = n
                if cc != n:
                    rt[m] = cc - n if E.exact else REAL_FLOAT(cc-n)
                continue
            # integer part of the coefficient
            n = cc.numerator//cc.denominator
            if n != 0:
                it[m] = n
            rt[m] = cc - n if E.exact else REAL_FLOAT(cc-n)
            continue
        rt[m] = c
    r = Sym(rt)
    lo, hi = bounds(r)
    fl = None if lo is None else math.floor(lo)
    fh = None if hi is None else math.floor(hi)
    if fl is not None and fl == fh:
        return demote(it) + fl
    at = _derived('floor', mkey(r.t), (r,), 'I', fl, fh)
    return demote(it) + Sym({(at.id,): 1})

def ceil(x):
    return -floor(-x)

def trunc(x):
    if not isinstance(x, Sym):
        x = norm_num(x)
        if isinstance(x, REAL_FLOAT):
            return REAL_FLOAT(math.trunc(x)) if math.isfinite(x) else x
        if isinstance(x, Fraction):
            return math.trunc(x)
        return x
    if x.isint:
        return x
    lo, hi = bounds(x)
    if lo is not None and lo >= 0:
        return floor(x)
    if hi is not None and hi <= 0:
        return -floor(-x)
    if branch(compare('<=', 0, x)):
        return floor(x)
    return -floor(-x)

def sround(x, n=0):
    """round half to even"""
    if not isinstance(x, Sym):
        x = norm_num(x)
        if isinstance(x, Fraction):
            return round(x, n)
        return round(REAL_FLOAT(x), n)
    if n != 0:
        return divide(sround(x*10**n if n > 0 else divide(x, 10**(-n))), 10**n if n > 0 else 1) \
            if n > 0 else sround(divide(x, 10**(-n)))*10**(-n)
    if x.isint:
        return x
    lo, hi = bounds(x)
    fl = None if lo is None else round(lo)
    fh = None if hi is None else round(hi)
    at = _derived('rint', mkey(x.t), (x,), 'I', fl, fh)
    return Sym({(at.id,): 1})

def mod(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        a, b = norm_num(a), norm_num(b)
        return a % b if b != 0 else NAN
    q = divide(a, b)
    return a - floor(q)*b

def fmod(a, b):
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return math.fmod(a, b)
    q = divide(a, b)
    return a - trunc(q)*b

def absolute(x):
    if not isinstance(x, Sym):
        return abs(x)
    if x.iscomplex:
        return sqrt(x.real*x.real + x.imag*x.imag)
    lo, hi = bounds(x)
    if lo is not None and lo >= 0:
        return x
    if hi is not None and hi <= 0:
        return -x
    c, q = _split_scale(x)
    lo, hi = bounds(q)
    h = None if None in (lo, hi) else max(abs(lo), abs(hi))
    at = _derived('abs', mkey(q.t), (q,), 'I' if q.isint else 'R', 0, h)
    return Sym({(at.id,): 1})*abs(c)

def power(a, b):
    if isinstance(b, Sym):
        if not isinstance(a, Sym) and b.isint:
            lo, hi = bounds(b)
            if lo is not None and hi is not None and hi - lo <= 64:
                return power(a, b.__index__())
        raise EngineError('symbolic exponent')
    b = norm_num(b)
    if not isinstance(a, Sym):
        a = norm_num(a)
        if a == 0 and b < 0:
            return math.inf
        if isinstance(a, int) and isinstance(b, int) and b < 0:
            return REAL_FLOAT(a)**b
        r = a**b
        if isinstance(r, complex) and not isinstance(a, complex):
            return NAN
        return r
    if b == REAL_INT(b):
        n = REAL_INT(b)
        if n == 0:
            return 1 if isinstance(b, int) else 1.0
        if n < 0:
            return divide(1, power(a, -n))
        r, base = None, a
        while n:
            if n & 1:
                r = base if r is None else r*base
            n >>= 1
            if n:
                base = base*base
        return r
    if b*2 == REAL_INT(b*2):
        s = sqrt(a)
        return power(s, REAL_INT(b*2))
    return function('pow', a, b)

def sqrt(x):
    if not isinstance(x, Sym):
        x = norm_num(x)
        if isinstance(x, complex):
            import cmath
            return cmath.sqrt(x)
        if is_nan(x):
            return x
        if x < 0:
            return NAN
        if isinstance(x, (int, Fraction)):
            fx = Fraction(x)
            n, d = math.isqrt(fx.numerator), math.isqrt(fx.denominator)
            if n*n == fx.numerator and d*d == fx.denominator:
                return Fraction(n, d) if E.exact and d != 1 else (n/d)
        return math.sqrt(x)
    if not _psd(x) and bool(compare('<', x, 0)):
        return NAN
    c, q = _split_scale(x)
    if c < 0:
        c, q = -c, -q
    s = math.sqrt(c)
    if E.exact:
        n, d = math.isqrt(Fraction(c).numerator), math.isqrt(Fraction(c).denominator)
        s = Fraction(n, d) if n*n == Fraction(c).numerator and d*d == Fraction(c).denominator else s
    if len(q.t) == 1:
        (m, _), = q.t.items()
        cnt = {}
        for a in m:
            cnt[a] = cnt.get(a, 0) + 1
        r = s
        for a, n in cnt.items():
            sa = Sym({(a,): 1})
            if n >= 2:
                r = r*absolute(power(sa, n//2))
            if n % 2:
                r = r*_sqrt_atom(sa)
        return r
    # (a + b)^2 with q a perfect square of a linear form
    root = _perfect_square(q)
    if root is not None:
        return s*absolute(root)
    return s*_sqrt_atom(q)

def _psd(q):
    """is the polynomial q of second order nonnegative everywhere, up to the
    rounding of its coefficients?"""
    if E.exact or any(len(m) > 2 or isinstance(c, complex) for m, c in q.t.items()):
        return False
    ids = sorted({a for m in q.t for a in m})
    if len(ids) > 200 or any(E.atoms[a].kind != 'base' for a in ids):
        return False
    # lower order terms multiply an additional variable
    ix = {a: i for i, a in enumerate(ids)}
    ix[None] = len(ids)
    import numpy as np
    G = np.zeros((len(ix), len(ix)))
    for m, c in q.t.items():
        a, b = (*m, None, None)[:2]
        G[ix[a], ix[b]] += c/2
        G[ix[b], ix[a]] += c/2
    # variables relative to their largest magnitudes
    d = np.ones(len(ix))
    for a, i in ix.items():
        if a is not None:
            lo, hi = E.atoms[a].lo, E.atoms[a].hi
            if lo is not None and hi is not None and max(abs(lo), abs(hi)) > 0:
                d[i] = float(max(abs(lo), abs(hi)))
    G = d[:, None]*G*d
    w = np.linalg.eigvalsh(G)
    return bool(w[0] >= -1e-11*abs(w[-1]))

def _perfect_square(q):
    """detect q = (sum_i a_i x_i)^2 over monomials x_i (float tolerance)"""
    sq = {}
    for m, c in q.t.items():
        if isinstance(c, complex):
            return None
        if len(m) % 2 == 0:
            if m[0::2] == m[1::2]:
                sq[m[0::2]] = c
    if not sq or any(c < 0 for c in sq.values()):
        return None
    items = sorted(sq.items())
    n = len(items)
    if len(q.t) > n*(n+1)//2 or n > 40:
        return None
    m0, c0 = items[0]
    r = {m0: math.sqrt(c0)}
    for m, c in items[1:]:
        cross = q.t.get(_mul_mono(m0, m))
        if cross is None:
            return None
        r[m] = math.copysign(math.sqrt(c), cross)
    if E.exact:
        for m in r:
            f = Fraction(sq[m])
            a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if a*a != f.numerator or b*b != f.denominator:
                return None
            r[m] = Fraction(a, b) if r[m] > 0 else -Fraction(a, b)
    root = Sym(r)
    d = root*root - q
    if isinstance(d, Sym):
        if E.exact or max(abs(c) for c in d.t.values()) > 1e-9*max(abs(c) for c in q.t.values()):
            return None
    elif abs(d) > 1e-9:
        return None
    return root

def _sqrt_atom(q):
    lo, hi = bounds(q)
    l = 0 if lo is None or lo <= 0 else math.sqrt(lo)*(1-1e-15)
    h = None if hi is None else math.sqrt(max(hi, 0))*(1+1e-15)
    if E.exact:
        l = Fraction(l)
        h = None if h is None else Fraction(h)
    at = _derived('sqrt', mkey(q.t), (q,), 'R', l, h)
    return Sym({(at.id,): 1})

def hypot(a, b):
    return sqrt(a*a + b*b)

def _cossin_atoms(q):
    """cos and sin atoms of normal form q (monic)"""
    k = mkey(q.t)
    cl, ch, sl, sh = -1, 1, -1, 1
    lo, hi = bounds(q)
    if lo is not None and hi is not None and hi - lo < 6.28 and not E.exact:
        cl, ch = _cos_range(lo, hi)
        sl, sh = _cos_range(lo - math.pi/2, hi - math.pi/2)
    c = _derived('cos', k, (q,), 'R', cl, ch)
    s = _derived('sin', k, (q, c), 'R', sl, sh)
    return c, s

def _cos_range(lo, hi):
    lo, hi = REAL_FLOAT(lo), REAL_FLOAT(hi)
    v = [math.cos(lo), math.cos(hi)]
    l, h = min(v) - 1e-12, max(v) + 1e-12
    if math.floor(hi/(2*math.pi)) != math.floor(lo/(2*math.pi)) or lo <= 0 <= hi:
        h = 1
    if math.floor((hi - math.pi)/(2*math.pi)) != math.floor((lo - math.pi)/(2*math.pi)):
        l = -1
    return max(l, -1), min(h, 1)

def cossin(x):
    """pair (cos x, sin x) with expansion of integer multiples and sums"""
    if not isinstance(x, Sym):
        x = norm_num(x)
        x = REAL_FLOAT(x)
        return math.cos(x), math.sin(x)
    co, si = 1.0, 0.0
    for m, c in x.t.items():
        if m == ():
            c1, s1 = math.cos(c), math.sin(c)
        else:
            # integer multiple of the finest angle seen for this monomial
            base = E.cos_base.get(m)
            if base is None:
                base = E.cos_base[m] = abs(c)
            r = c/base
            n = round(r)
            if abs(r - n) > 1e-9*max(1, abs(r)) or abs(n) > 512:
                # unrelated angle: its own atom
                ca, sa = _cossin_atoms(Sym({m: abs(c)}))
                c1, s1 = Sym({(ca.id,): 1.0}), Sym({(sa.id,): 1.0})
                if c < 0:
                    s1 = -s1
            else:
                c1, s1 = _multiple(m, base, abs(n))
                if n < 0:
                    s1 = -s1
        co, si = co*c1 - si*s1, si*c1 + co*s1
    return co, si

def _multiple(m, base, n):
    k = ('mult', m, _rk(base), n)
    r = E.table.get(k)
    if r is not None:
        return r
    if n == 0:
        r = (1.0, 0.0)
    elif n == 1:
        ca, sa = _cossin_atoms(Sym({m: base}))
        r = (Sym({(ca.id,): 1.0}), Sym({(sa.id,): 1.0}))
    else:
        c1, s1 = _multiple(m, base, 1)
        c2, s2 = _multiple(m, base, n-1)
        r = (c1*c2 - s1*s2, s1*c2 + c1*s2)
    E.table[k] = r
    return r

def cos(x):
    if isinstance(x, Sym):
        return cossin(x)[0]
    return math.cos(norm_num(x))

def sin(x):
    if isinstance(x, Sym):
        return cossin(x)[1]
    return math.sin(norm_num(x))

def tan(x):
    if not isinstance(x, Sym):
        return math.tan(norm_num(x))
    c, s = cossin(x)
    return divide(s, c)

def exp(x):
    if not isinstance(x, Sym):
        x = norm_num(x)
        if isinstance(x, complex):
            import cmath
            return cmath.exp(x)
        try:
            return math.exp(x)
        except OverflowError:
            return math.inf
    if x.iscomplex:
        re, im = x.real, x.imag
        c, s = cossin(im)
        r = c + s*1j
        if isinstance(re, Sym) or re != 0:
            r = exp(re)*r
        return r
    return function('exp', x)

FUNCS = {'exp': math.exp, 'log': math.log, 'log10': math.log10, 'arcsin': math.asin,
    'arccos': math.acos, 'arctan': math.atan, 'arctan2': math.atan2,
    'tanh': math.tanh, 'sinh': math.sinh, 'cosh': math.cosh,
    'pow': lambda a, b: a**b, 'erf': math.erf}
FBOUNDS = {'exp': (0, None), 'arcsin': (-math.pi/2, math.pi/2), 'arccos': (0, math.pi),
    'arctan': (-math.pi/2, math.pi/2), 'arctan2': (-math.pi, math.pi),
    'tanh': (-1, 1), 'cosh': (1, None), 'erf': (-1, 1)}

def function(name, *args):
    """uninterpreted (hash-consed) function of symbolic arguments"""
    if not any(isinstance(a, Sym) for a in args):
        try:
            return FUNCS[name](*[REAL_FLOAT(norm_num(a)) for a in args])
        except (ValueError, OverflowError, ZeroDivisionError):
            if name in ('log', 'log10') and args[0] == 0:
                return -math.inf
            return NAN
    lo, hi = FBOUNDS.get(name, (None, None))
    if name in ('exp', 'log', 'arctan', 'tanh', 'sinh', 'erf') and len(args) == 1:
        l, h = bounds(args[0])
        try:
            if l is not None:
                lo = FUNCS[name](l) - 1e-12*abs(FUNCS[name](l))
            if h is not None:
                hi = FUNCS[name](h) + 1e-12*abs(FUNCS[name](h))
        except (ValueError, OverflowError):
            pass
    key = tuple(mkey(as_terms(a)) for a in args)
    at = _derived(name, key, args, 'R', lo, hi)
    return Sym({(at.id,): 1})

def maximum(a, b):
    if is_num(a) and is_nan(norm_num(a)) or is_num(b) and is_nan(norm_num(b)):
        return NAN
    c = tobool(compare('<=', b, a))
    if isinstance(c, bool):
        return a if c else b
    return ite(c, a, b)

def minimum(a, b):
    if is_num(a) and is_nan(norm_num(a)) or is_num(b) and is_nan(norm_num(b)):
        return NAN
    c = tobool(compare('<=', a, b))
    if isinstance(c, bool):
        return a if c else b
    return ite(c, a, b)

def sign(x):
    if not isinstance(x, Sym):
        x = norm_num(x)
        return x if is_nan(x) else (x > 0) - (x < 0)
    return ite(compare('<', 0, x), 1, ite(compare('<', x, 0), -1, 0))

def ite(c, a, b):
    c = tobool(c)
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return bor(band(c, a), band(bnot(c), b))
    if isinstance(a, SymBool):
        a = bool_to_num(a)
    if isinstance(b, SymBool):
        b = bool_to_num(b)
    for x in (a, b):
        if not isinstance(x, Sym):
            if not is_num(x):
                return a if branch(c) else b
            if is_nan(norm_num(x)) or is_inf(norm_num(x)):
                # not representable inside a term: split the path
                return a if branch(c) else b
            if isinstance(norm_num(x), complex):
                return a if branch(c) else b
    if isinstance(a, Sym) and a.iscomplex or isinstance(b, Sym) and b.iscomplex:
        return a if branch(c) else b
    d = a - b
    if not isinstance(d, Sym) and d == 0:
        return a
    isint = all(x.isint if isinstance(x, Sym) else isinstance(norm_num(x), int)
        for x in (a, b))
    (l1, h1), (l2, h2) = bounds(a), bounds(b)
    lo = None if None in (l1, l2) else min(l1, l2)
    hi = None if None in (h1, h2) else max(h1, h2)
    key = (bkey(c), mkey(as_terms(a)), mkey(as_terms(b)))
    at = _derived('ite', key, (c, a, b), 'I' if isint else 'R', lo, hi)
    return Sym({(at.id,): 1})

def bkey(b):
    if isinstance(b, bool):
        return b
    if b.k == 'cmp':
        return ('cmp', b.a[0], mkey(b.a[1].t))
    if b.k == 'not':
        return ('not', bkey(b.a))
    if b.k == 'const':
        return b.a
    if b.k == 'pair':
        return ('pair', id(b))
    return (b.k,) + tuple(bkey(x) for x in b.a)

# ---------------------------------------------------------------- z3 encoding
def zval(c):
    if isinstance(c, REAL_FLOAT):
        c = Fraction(c)
    if isinstance(c, int):
        return z3.RealVal(c)
    return z3.RealVal(f'{c.numerator}/{c.denominator}')

def atom_z(a):
    return z3.ToReal(a.z) if a.sort == 'I' else a.z

def zterm(x, mono=None):
    """z3 real term for a Sym; ``mono`` maps nonlinear monomials to variables"""
    if not isinstance(x, Sym):
        x = norm_num(x)
        if isinstance(x, complex):
            raise EngineError('complex value in a query')
        if is_nan(x) or is_inf(x):
            raise EngineError('nan in a query')
        return zval(x)
    if mono is None and x._z is not None:
        return x._z
    if x.isint and mono is None:
        terms = []
        for m, c in x.t.items():
            c = REAL_INT(c)
            if not m:
                terms.append(z3.IntVal(c))
                continue
            p = E.atoms[m[0]].z
            for a in m[1:]:
                p = p*E.atoms[a].z
            terms.append(p if c == 1 else c*p)
        r = z3.ToReal(z3.Sum(terms) if len(terms) > 1 else terms[0])
    else:
        terms = []
        for m, c in x.t.items():
            if isinstance(c, complex):
                raise EngineError('complex value in a query')
            if not m:
                terms.append(zval(c))
                continue
            if mono is not None and len(m) > 1:
                p = mono(m)
            else:
                p = atom_z(E.atoms[m[0]])
                for a in m[1:]:
                    p = p*atom_z(E.atoms[a])
            terms.append(p if c == 1 else zval(c)*p)
        r = z3.Sum(terms) if len(terms) > 1 else terms[0]
    if mono is None:
        x._z = r
    return r

def zcmp(op, d, mono=None):
    if mono is None and d.isint:
        terms = []
        k = 0
        for m, c in d.t.items():
            c = REAL_INT(c)
            if not m:
                k = c
                continue
            p = E.atoms[m[0]].z
            for a in m[1:]:
                p = p*E.atoms[a].z
            terms.append(p if c == 1 else c*p)
        l = z3.Sum(terms) if len(terms) > 1 else terms[0]
        r = z3.IntVal(-k)
    else:
        l, r = zterm(d, mono), z3.RealVal(0)
    if op == '<':
        return l < r
    if op == '<=':
        return l <= r
    if op == '==':
        return l == r
    return l != r

def zbool(b, mono=None):
    if isinstance(b, bool):
        return z3.BoolVal(b)
    if mono is None and b._z is not None:
        return b._z
    if b.k == 'const':
        r = z3.BoolVal(b.a)
    elif b.k == 'cmp':
        r = zcmp(b.a[0], b.a[1], mono)
    elif b.k == 'pair':
        # the two sides are encoded separately
        x, y, t = b.a
        d = zterm(x, mono) - zterm(y, mono)
        r = z3.Or(d > zval(t), d < zval(-t))
    elif b.k == 'not':
        r = z3.Not(zbool(b.a, mono))
    elif b.k == 'and':
        r = z3.And(*[zbool(x, mono) for x in b.a])
    else:
        r = z3.Or(*[zbool(x, mono) for x in b.a])
    if mono is None:
        b._z = r
    return r

def atoms_of(x, out=None):
    """all atoms (transitively) that x depends on"""
    if out is None:
        out = set()
    work = [x]
    while work:
        y = work.pop()
        if isinstance(y, Sym):
            for m in y.t:
                for a in m:
                    if a not in out:
                        out.add(a)
                        work.extend(E.atoms[a].args)
        elif isinstance(y, SymBool):
            if y.k == 'cmp':
                work.append(y.a[1])
            elif y.k == 'pair':
                work.extend(y.a[:2])
            elif y.k in ('and', 'or'):
                work.extend(y.a)
            elif y.k == 'not':
                work.append(y.a)
        elif isinstance(y, Atom):
            if y.id not in out:
                out.add(y.id)
                work.extend(y.args)
    return out

def definition(a, mono=None):
    """defining constraints of an atom"""
    if mono is None and a.cons is not None:
        return a.cons
    z = atom_z(a)
    c = []
    if a.lo is not None:
        c.append(a.z >= (math.ceil(a.lo) if a.sort == 'I' else zval(a.lo)))
    if a.hi is not None:
        c.append(a.z <= (math.floor(a.hi) if a.sort == 'I' else zval(a.hi)))
    if a.kind == 'inv':
        if mono is None:
            c.append(z*zterm(a.args[0]) == 1)
        else:
            d = _reduce_raw(a)
            if d is not None:
                c.append(zterm(d, mono) == 1)
    elif a.kind == 'sqrt':
        c.append(z >= 0)
        if mono is None:
            c.append(z*z == zterm(a.args[0]))
        else:
            c.append(mono((a.id, a.id)) == zterm(a.args[0], mono))
    elif a.kind == 'floor':
        t = zterm(a.args[0], mono)
        c += [z <= t, t < z + 1]
    elif a.kind == 'rint':
        t = zterm(a.args[0], mono)
        h = z3.RealVal('1/2')
        c += [z - h <= t, t <= z + h, z3.Implies(z3.Or(t == z + h, t == z - h), a.z % 2 == 0)]
    elif a.kind == 'abs':
        t = zterm(a.args[0], mono)
        c += [z >= t, z >= -t, z3.Or(z == t, z == -t)]
    elif a.kind == 'ite':
        cc, x, y = a.args
        zc = zbool(cc, mono)
        c += [z3.Implies(zc, z == zterm(x, mono)), z3.Implies(z3.Not(zc), z == zterm(y, mono))]
    elif a.kind == 'sin':
        ca = a.args[1]
        if mono is None:
            c.append(z*z + ca.z*ca.z == 1)
        else:
            c.append(mono((a.id, a.id)) + mono((ca.id, ca.id)) == 1)
    if mono is None:
        a.cons = c
    return c

def _reduce_raw(a):
    t = {}
    for m, c in a.args[0].t.items():
        t[_mul_mono(m, (a.id,))] = c
    return Sym(t)

class Query:
    """one satisfiability question with the definitions it needs"""
    def __init__(self, formulas, linear=False, timeout=None, define=True):
        self.linear = linear
        s = z3.Solver()
        self.timeout = timeout or E.timeout_ms
        s.set('timeout', self.timeout)
        self.monos = {}
        mono = self._mono if linear else None
        ids = set()
        for f in formulas:
            if not isinstance(f, bool):
                atoms_of(f, ids)
        for f in formulas:
            s.add(zbool(f, mono))
        for i in sorted(ids) if define else ():
            for c in definition(E.atoms[i], mono):
                s.add(c)
        done = set()
        while len(done) < len(self.monos):
            for m, v in list(self.monos.items()):
                if m in done:
                    continue
                done.add(m)
                lo, hi = outward(*mono_bounds(m))
                if lo is not None:
                    s.add(v >= zval(lo))
                if hi is not None:
                    s.add(v <= zval(hi))
        self.s = s
        self.ids = ids

    def _mono(self, m):
        v = self.monos.get(m)
        if v is None:
            v = self.monos[m] = z3.Real('m!' + '_'.join(map(str, m)))
        return v

    def check(self):
        t0 = _time.time()
        r = self.s.check()
        E.stats['solver_s'] += _time.time() - t0
        E.stats['queries'] += 1
        r = str(r)
        E.stats[r] += 1
        return r

    def model(self):
        m = self.s.model()
        out = {}
        for i in self.ids:
            a = E.atoms[i]
            if a.kind != 'base':
                continue
            v = m.eval(a.z, model_completion=True)
            out[a.name] = zvalue(v)
        return out

def zvalue(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        v = v.approx(30)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    raise EngineError(f'model value {v}')

def is_nonlinear(formulas):
    ids = set()
    for f in formulas:
        if not isinstance(f, bool):
            atoms_of(f, ids)
    for i in ids:
        if E.atoms[i].kind in ('inv', 'sqrt', 'sin', 'cos'):
            return True
        for x in E.atoms[i].args:
            if isinstance(x, Sym) and any(len(m) > 1 for m in x.t):
                return True
    def nl(b):
        if isinstance(b, bool) or b.k == 'const':
            return False
        if b.k == 'cmp':
            return any(len(m) > 1 for m in b.a[1].t)
        if b.k == 'pair':
            return True
        if b.k == 'not':
            return nl(b.a)
        return any(nl(x) for x in b.a)
    return any(nl(f) for f in formulas)

def is_heavy(f):
    """long nonlinear conditions, which the solver cannot decide in reasonable time"""
    if isinstance(f, bool) or f.k == 'const':
        return False
    if f.k == 'not':
        return is_heavy(f.a)
    if f.k != 'cmp':
        return f.k != 'pair' and any(is_heavy(x) for x in f.a)
    ids = atoms_of(f, set())
    n = sum(len(m) > 1 for m in f.a[1].t)
    for i in ids:
        for x in E.atoms[i].args:
            if isinstance(x, Sym):
                n += sum(len(m) > 1 for m in x.t)
    return n > HEAVY

HEAVY = 40

def solve(formulas, want_model=True, timeout=None, linear_only=False):
    """returns ('unsat',None) | ('sat',model) | ('unknown',None)"""
    for f in formulas:
        if f is False:
            E.stats['queries'] += 1
            E.stats['unsat'] += 1
            return 'unsat', None
    formulas = [f for f in formulas if f is not True]
    if not formulas:
        return 'sat', {}
    nonlin = is_nonlinear(formulas)
    if nonlin:
        q = Query(formulas, linear=True, timeout=timeout)
        if q.check() == 'unsat':
            return 'unsat', None
        if linear_only:
            return 'unknown', None
    q = Query(formulas, linear=False, timeout=timeout)
    r = q.check()
    if r == 'sat':
        return 'sat', (q.model() if want_model else None)
    return r, None

# ---------------------------------------------------------------- evaluation
def evaluate(x, env, cache=None):
    """numeric value of a symbolic term under an assignment of base variables"""
    if cache is None:
        cache = {}
    if isinstance(x, SymBool):
        if x.k == 'const':
            return x.a
        if x.k == 'cmp':
            v = evaluate(x.a[1], env, cache)
            return {'<': v < 0, '<=': v <= 0, '==': v == 0, '!=': v != 0}[x.a[0]]
        if x.k == 'pair':
            return abs(evaluate(x.a[0], env, cache) - evaluate(x.a[1], env, cache)) > x.a[2]
        if x.k == 'not':
            return not evaluate(x.a, env, cache)
        vals = [evaluate(y, env, cache) for y in x.a]
        return all(vals) if x.k == 'and' else any(vals)
    if not isinstance(x, Sym):
        return x
    tot = 0
    for m, c in x.t.items():
        p = c
        for a in m:
            p = p*eval_atom(E.atoms[a], env, cache)
        tot = tot + p
    return tot

def eval_atom(a, env, cache):
    if a.id in cache:
        return cache[a.id]
    if a.kind == 'base':
        v = env.get(a.name)
        if v is None:
            v = 0 if (a.lo is None or a.lo <= 0) and (a.hi is None or a.hi >= 0) else (a.lo if a.lo is not None else a.hi)
        if not E.exact and a.sort == 'R':
            v = REAL_FLOAT(v)
    elif a.kind == 'ite':
        c, x, y = a.args
        v = evaluate(x if evaluate(c, env, cache) else y, env, cache)
    else:
        args = [evaluate(x, env, cache) for x in a.args if not isinstance(x, Atom)]
        if a.kind == 'inv':
            v = 1/Fraction(args[0]) if E.exact and not isinstance(args[0], float) else 1.0/args[0]
        elif a.kind == 'sqrt':
            v = math.sqrt(max(args[0], 0))
        elif a.kind == 'floor':
            v = math.floor(args[0])
        elif a.kind == 'rint':
            v = round(args[0])
        elif a.kind == 'abs':
            v = abs(args[0])
        elif a.kind == 'cos':
            v = math.cos(args[0])
        elif a.kind == 'sin':
            v = math.sin(args[0])
        else:
            v = FUNCS[a.kind](*[REAL_FLOAT(y) for y in args])
    cache[a.id] = v
    return v

# ---------------------------------------------------------------- explorer
class Explorer:
    def __init__(self, max_paths=4000):
        self.max_paths = max_paths
        self.stack = [[]]
        self.paths = 0
        self.feas_cache = {}

    def begin(self, prefix):
        self.prefix = prefix
        self.decisions = []
        self.pc = []
        self.pckey = ()

    def assume(self, b):
        b = tobool(b)
        if b is True:
            return
        if b is False:
            raise PathAbort()
        self.pc.append(b)
        self.pckey = self.pckey + (bkey(b),)

    def feasible(self, b):
        key = (self.pckey, bkey(b))
        r = self.feas_cache.get(key)
        if r is None:
            E.stats['feas'] += 1
            heavy = [f for f in self.pc + [b] if is_heavy(f)]
            if heavy:
                # undecided counts as feasible
                r, _ = solve([f for f in self.pc if not is_heavy(f)] + [b], want_model=False, timeout=1000, linear_only=True)
            else:
                r, _ = solve(self.pc + [b], want_model=False, timeout=20000)
            self.feas_cache[key] = r
        return r != 'unsat'

    def decide(self, b):
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            if len(self.decisions) > 5000:
                raise EngineError('too many decisions on one path')
            ft = self.feasible(b)
            ff = self.feasible(bnot(b)) if ft else True
            if ft and ff:
                E.stats['forks'] += 1
                self.stack.append(self.decisions + [False])
                if len(self.stack) + self.paths > self.max_paths:
                    raise Inconclusive('too many paths')
            d = ft
        self.decisions.append(d)
        f = b if d else bnot(b)
        self.pc.append(f)
        self.pckey = self.pckey + (bkey(f),)
        return d

    def run(self, fn):
        """execute fn once per feasible path; yields after each path"""
        E.explorer = self
        try:
            while self.stack:
                prefix = self.stack.pop()
                self.begin(prefix)
                self.paths += 1
                try:
                    fn()
                except PathAbort:
                    pass
        finally:
            E.explorer = None

def branch(b):
    b = tobool(b)
    if isinstance(b, bool):
        return b
    if E.explorer is None:
        raise EngineError('truth value of a formula outside of an exploration')
    # already decided on this path?
    k = bkey(b)
    if k in E.explorer.pckey:
        return True
    if bkey(bnot(b)) in E.explorer.pckey:
        return False
    return E.explorer.decide(b)

def concretize(x):
    """case split over the feasible values of an integer term"""
    if not isinstance(x, Sym):
        return REAL_INT(x)
    ex = E.explorer
    for _ in range(2000):
        i = len(ex.decisions)
        # replay: candidate values are recorded alongside the decisions
        if i < len(ex.prefix):
            d = ex.prefix[i]
            v = d[1]
            ex.decisions.append(d)
            f = compare('==', x, v) if d[0] else compare('!=', x, v)
            ex.pc.append(f)
            ex.pckey = ex.pckey + (bkey(f),)
            if d[0]:
                return v
            continue
        r, m = solve(ex.pc + [TRUE_OF(x)], want_model=True)
        if r != 'sat':
            if r == 'unsat':
                raise PathAbort()
            raise Inconclusive('concretization')
        v = evaluate(x, m)
        v = REAL_INT(v)
        f = compare('==', x, v)
        nf = bnot(f)
        if f is True:
            return v
        if ex.feasible(nf):
            E.stats['forks'] += 1
            ex.stack.append(ex.decisions + [(False, v)])
            if len(ex.stack) + ex.paths > ex.max_paths:
                raise Inconclusive('too many paths')
        ex.decisions.append((True, v))
        ex.pc.append(f)
        ex.pckey = ex.pckey + (bkey(f),)
        return v
    raise Inconclusive('concretization')

def TRUE_OF(x):
    """a tautology that mentions every atom of x"""
    return SymBool('or', (SymBool('cmp', ('==', x)), SymBool('cmp', ('!=', x))))

# ---------------------------------------------------------------- literals
def new_literal(sym, name=None, text=None):
    """text of a numeric literal that stands for a symbolic value in a file"""
    E.literals[text] = sym
    return text

def parse_number(text):
    """numeric literal -> symbolic value registered for it, or None"""
    t = text.strip()
    v = E.literals.get(t)
    if v is not None:
        return v
    try:
        return E.literals.get(REAL_FLOAT(t.replace('D', 'E').replace('d', 'e')))
    except ValueError:
        return None

LIT_BASE = 7130000

def register_literal(sym):
    """a unique float standing for sym in text or binary files"""
    E.litcount += 1
    v = LIT_BASE + E.litcount
    return v

def format_literal(sym, spec):
    """decimal text standing for a symbolic value (see harness: text files)"""
    import re
    k = ('lit', mkey(sym.t))
    n = E.table.get(k)
    if n is None:
        E.litcount += 1
        n = E.table[k] = E.litcount
    slack = 0
    m = re.match(r'^([<>=^]?)([+\- ]?)(0?)(\d*)(?:\.(\d+))?([a-zA-Z%]?)$', spec)
    if not m:
        raise EngineError(f'format {spec!r} of a symbolic value')
    width = REAL_INT(m.group(4) or 0)
    prec = m.group(5)
    ty = m.group(6)
    if ty in ('d',):
        if not sym.isint:
            raise ValueError("Unknown format code 'd' for object of type 'float'")
    # text is a number no real data uses, with the sign and the kind of
    # exponent of the values it stands for (where their bounds decide them)
    lo, hi = bounds(sym)
    neg = hi is not None and hi <= 0 and not (lo is not None and lo >= 0)
    small = lo is not None and hi is not None and max(abs(lo), abs(hi)) < 1
    if ty in ('f', 'F', '%'):
        p = 6 if prec is None else REAL_INT(prec)
        num = f'8{n:04d}' + ('.' + '7'*p if p else '7')
    elif ty == 'd':
        num = f'8{n:04d}7'
    else:
        num = f'7.{n:06d}' + ('e' if ty in ('e', 'g') else 'E') + ('-77' if small else '+77')
    pre = '-' if neg else (m.group(2) if m.group(2) in ('+', ' ') else '')
    for t, sg in ((num, -1 if neg else 1), ('-' + num, 1 if neg else -1)):
        E.literals[t] = E.literals[REAL_FLOAT(t)] = (sym, spec, sg)
        try:
            single = struct.unpack('f', struct.pack('f', REAL_FLOAT(t)))[0]
        except OverflowError:
            single = 0
        if single:
            E.literals['f4', single] = (sym, spec + '|f4', sg)
    text = pre + num
    if len(text) >= width:
        return text
    if m.group(3):
        return pre + num.rjust(width - len(pre), '0')
    return {'<': text.ljust, '^': text.center}.get(m.group(1), text.rjust)(width)

def clear_inverses(d, limit=6000):
    """(N, m) with |d| <= t implied by |N| <= t*m: denominators multiplied out.

    Returns None when there is nothing to clear or a denominator is not
    bounded away from zero."""
    m = 1.0
    any_ = False
    for _ in range(12):
        cnt = {}
        for mono in d.t:
            loc = {}
            for a in mono:
                if E.atoms[a].kind == 'inv':
                    loc[a] = loc.get(a, 0) + 1
            for a, n in loc.items():
                cnt[a] = max(cnt.get(a, 0), n)
        if not cnt:
            break
        a = max(cnt)
        n = cnt[a]
        q = E.atoms[a].args[0]
        lo, hi = bounds(q)
        if lo is not None and lo > 0:
            b = lo
        elif hi is not None and hi < 0:
            b = -hi
        else:
            return None
        pw = [1]
        for i in range(n):
            pw.append(pw[-1]*q)
        by = {}
        for mono, c in d.t.items():
            j = mono.count(a)
            by.setdefault(j, {})[tuple(x for x in mono if x != a)] = c
        tot = 0
        for j, t in by.items():
            tot = tot + Sym(t)*pw[n-j] if not (len(t) == 1 and () in t) else tot + t[()]*pw[n-j]
            if isinstance(tot, Sym) and len(tot.t) > limit:
                return None
        m *= REAL_FLOAT(b)**n
        any_ = True
        if not isinstance(tot, Sym):
            return tot, m
        d = tot
    else:
        return None
    return (d, m) if any_ else None
