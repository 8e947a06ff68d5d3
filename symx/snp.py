"""The numpy the code under test sees: real numpy on object arrays of symbolic scalars, with the functions that real
numpy cannot run on objects replaced by symbolic ones."""
import math
import types
import numpy as np
import z3
from . import poly as P
from .poly import VARS, pkey, pvars, peval, psub, pmul, padd
from .engine import ENGINE, DEFS, Unsupported, z3poly, z3var
from .scalar import (S, SBool, S_of, as_bool, s_and, s_or, s_not, close, mkbool, arctan2 as _atan2, NotANumber,
                     _memo, _fresh, parts, cos_sin, named)

MAXTERMS = 3000
LET = [None]      # entries of matrix products with more terms than this are named


class SymArray(np.ndarray):
    """object ndarray with complex-number semantics for .real/.imag/comparisons/max/..."""
    __array_priority__ = 100

    @property
    def real(self):
        return vec(_real, self)

    @real.setter
    def real(self, v):
        self[...] = vec2(lambda a, b: b + 1j * _imag(a), self, v)

    @property
    def imag(self):
        return vec(_imag, self)

    def conj(self):
        return vec(_conj, self)
    conjugate = conj

    def astype(self, t, *a, **k):
        k2 = kind_of(t)
        if k2 in ('c', 'f', 'O'):
            return sym(np.array(self, dtype=object, copy=True))
        if k2 == 'i':
            return np.array([int(x) for x in self.reshape(-1)]).reshape(self.shape)
        if k2 == 'b':
            return np.array([bool(x) for x in self.reshape(-1)]).reshape(self.shape)
        return np.ndarray.astype(self, t, *a, **k)

    def __lt__(self, o):
        return cmp_arr(np.less, self, o)

    def __le__(self, o):
        return cmp_arr(np.less_equal, self, o)

    def __gt__(self, o):
        return cmp_arr(np.greater, self, o)

    def __ge__(self, o):
        return cmp_arr(np.greater_equal, self, o)

    def __eq__(self, o):
        return cmp_arr(np.equal, self, o)

    def __ne__(self, o):
        return cmp_arr(np.not_equal, self, o)

    __hash__ = None

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0])
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __invert__(self):
        return vec(lambda b: s_not(b) if isinstance(b, (SBool, bool, np.bool_)) else ~b, self)

    def max(self, axis=None, *a, **k):
        return amax(self, axis)

    def min(self, axis=None, *a, **k):
        return amin(self, axis)

    def argmax(self, axis=None, *a, **k):
        return argmax(self, axis)

    def argmin(self, axis=None, *a, **k):
        return argmax(-self, axis)

    def all(self, axis=None, *a, **k):
        if axis is not None:
            raise Unsupported('all(axis)')
        return s_and(list(self.reshape(-1)))

    def any(self, axis=None, *a, **k):
        if axis is not None:
            raise Unsupported('any(axis)')
        return s_or(list(self.reshape(-1)))

    def fill(self, v):
        np.ndarray.fill(self, v)

    def dot(self, o):
        return wrap(np.dot(self, obj(o)))

    def __matmul__(self, o):
        return _let(np.matmul(np.asarray(self), np.asarray(obj(o))))

    def __rmatmul__(self, o):
        return _let(np.matmul(np.asarray(obj(o)), np.asarray(self)))

    def __float__(self):
        return float(self.reshape(-1)[0])

    def round(self, decimals=0, out=None):
        return around(self, decimals)

    def __repr__(self):
        return 'SymArray(%s)' % (self.shape,)

    def __format__(self, spec):
        return '<symarray>'
    __str__ = __repr__


def _let(r):
    r = wrap(r)
    if LET[0] is not None:
        r = vec(lambda x: named(x, LET[0]) if isinstance(x, S) else x, r)
    return r


def sym(a):
    return a.view(SymArray) if type(a) is not SymArray else a


def wrap(r):
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            return sym(r)
        return r
    if isinstance(r, tuple):
        return tuple(wrap(x) for x in r)
    if isinstance(r, list):
        return [wrap(x) for x in r]
    return r


def obj(a):
    """as an object SymArray"""
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            return sym(a)
        return sym(a.astype(object))
    if isinstance(a, (S, SBool)):
        r = np.empty((), dtype=object)
        r[()] = a
        return sym(r)
    r = np.array(a)
    return sym(r if r.dtype == object else r.astype(object))


def symbolic(a):
    if isinstance(a, (S, SBool)):
        return True
    if isinstance(a, np.ndarray):
        return a.dtype == object
    if isinstance(a, (list, tuple)):
        return any(symbolic(x) for x in a)
    return False


def is_const_array(a):
    for x in obj(a).reshape(-1):
        if isinstance(x, S) and not x.numconst():
            return False
        if isinstance(x, SBool):
            return False
    return True


def to_complex(a):
    a = obj(a)
    out = np.empty(a.shape, dtype=complex)
    f = out.reshape(-1)
    for i, x in enumerate(a.reshape(-1)):
        f[i] = complex(x)
    return out


def vec(f, a):
    if isinstance(a, np.ndarray):
        out = np.empty(a.shape, dtype=object)
        of = out.reshape(-1)
        for i, x in enumerate(np.asarray(a).reshape(-1)):
            of[i] = f(x)
        return sym(out) if out.ndim else of[0]
    return f(a)


def vec2(f, a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        x, y = np.broadcast_arrays(np.asarray(obj(a)), np.asarray(obj(b)))
        out = np.empty(x.shape, dtype=object)
        of = out.reshape(-1)
        for i, (p, q) in enumerate(zip(x.reshape(-1), y.reshape(-1))):
            of[i] = f(p, q)
        return sym(out) if out.ndim else of[0]
    return f(a, b)


def cmp_arr(uf, a, b):
    if b is None:
        return False
    r = uf(np.asarray(a), np.asarray(obj(b)), dtype=object)
    return wrap(r) if isinstance(r, np.ndarray) else r


def _real(x):
    return x.real


def _imag(x):
    return x.imag


def _conj(x):
    return x.conjugate()


# ------------------------------------------------------------------------------------------------ dtypes
class _ShimMeta(type):
    def __instancecheck__(cls, x):
        return cls._check(x)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, cls._base)

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls._base

    def __hash__(cls):
        return hash(cls._base)

    def __repr__(cls):
        return repr(cls._base)

    def __getattr__(cls, n):
        return getattr(cls._base, n)


def _scalar_arg(x):
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        return x.reshape(-1)[0]
    return x


class FloatShim(metaclass=_ShimMeta):
    _base = float
    dtype = np.dtype(float)

    @staticmethod
    def _check(x):
        if isinstance(x, S):
            return not x.im and not _is_intvar(x)
        return isinstance(x, float)

    @staticmethod
    def _make(x=0.0):
        x = _scalar_arg(x)
        if isinstance(x, S):
            if x.im:
                if P.prune(x.im, 1e-12):
                    raise TypeError("can't convert complex to float")
                return S(x.re)
            return x
        if isinstance(x, SBool):
            return float(bool(x))
        if isinstance(x, np.complexfloating):
            x = complex(x)
            return float(x.real)
        return float(x)


class ComplexShim(metaclass=_ShimMeta):
    _base = complex
    dtype = np.dtype(complex)

    @staticmethod
    def _check(x):
        if isinstance(x, S):
            return bool(x.im)
        return isinstance(x, complex)

    @staticmethod
    def _make(x=0, y=None):
        x = _scalar_arg(x)
        if isinstance(x, S) or isinstance(y, S):
            return x if y is None else x + 1j * y
        return complex(x) if y is None else complex(x, y)


def _is_intvar(x):
    vs = pvars(x.re)
    return bool(vs) and not x.im and all(VARS.is_int[v] for v in vs)


class IntShim(metaclass=_ShimMeta):
    _base = int
    dtype = np.dtype(int)

    @staticmethod
    def _check(x):
        if isinstance(x, S):
            return _is_intvar(x)
        return isinstance(x, int)

    @staticmethod
    def _make(x=0, *a):
        x = _scalar_arg(x)
        if isinstance(x, S):
            if _is_intvar(x):
                return x
            return int(x)
        return int(x, *a)


class BoolShim(metaclass=_ShimMeta):
    _base = bool
    dtype = np.dtype(bool)

    @staticmethod
    def _check(x):
        return isinstance(x, (bool, SBool))

    @staticmethod
    def _make(x=False):
        return bool(x)


def base_type(t):
    return t._base if isinstance(t, _ShimMeta) else t


def kind_of(t):
    if t is None:
        return None
    t = base_type(t)
    try:
        return np.dtype(t).kind
    except TypeError:
        return 'O'


def _created(a, dtype=None):
    """result of an array constructor: inexact arrays become object arrays"""
    if isinstance(a, np.ndarray) and a.dtype.kind in 'fcO':
        return obj(a)
    return a


def _ctor(fn):
    def f(*a, **k):
        if 'dtype' in k:
            k['dtype'] = base_type(k['dtype'])
        a = tuple(base_type(x) if isinstance(x, _ShimMeta) else x for x in a)
        return _created(fn(*a, **k))
    f.__name__ = fn.__name__
    return f


def array(x, dtype=None, copy=True, ndmin=0, **k):
    kd = kind_of(dtype)
    if kd in ('i', 'u', 'b'):
        if symbolic(x):
            x = np.array(x, dtype=object)
            return vec(int if kd != 'b' else bool, x).astype(base_type(dtype))
        return np.array(x, dtype=base_type(dtype), ndmin=ndmin)
    if kd in ('c', 'f') or symbolic(x):
        r = np.array(x, dtype=object, ndmin=ndmin)
        return sym(r)
    r = np.array(x, dtype=base_type(dtype), ndmin=ndmin)
    return _created(r)


def asarray(x, dtype=None, **k):
    if isinstance(x, np.ndarray) and dtype is None:
        return x
    return array(x, dtype)


def _like(fn):
    def f(a, dtype=None, **k):
        if dtype is None:
            dtype = object if (isinstance(a, np.ndarray) and a.dtype.kind in 'fcO') else None
        else:
            dtype = base_type(dtype)
        return _created(fn(np.asarray(a), dtype=dtype, **k))
    return f


def copy_(a, **k):
    return array(a)


# ------------------------------------------------------------------------------------------------ elementwise
def _unary(name, npf):
    def f(x, *a, **k):
        if symbolic(x) or isinstance(x, (list, tuple)):
            x = obj(x) if not isinstance(x, (S, SBool)) else x

            def g(e):
                if isinstance(e, S):
                    return getattr(e, name)()
                r = npf(e)
                return r.item() if isinstance(r, np.generic) else r
            return vec(g, x)
        r = npf(x, *a, **k)
        return _created(r)
    f.__name__ = name
    return f


def _abs(x, *a, **k):
    if symbolic(x) or isinstance(x, (list, tuple)):
        return vec(abs, obj(x) if not isinstance(x, S) else x)
    return _created(np.abs(x))


def real(x):
    if isinstance(x, S):
        return x.real
    if isinstance(x, (list, tuple)):
        x = obj(x)
    return x.real if hasattr(x, 'real') else np.real(x)


def imag(x):
    if isinstance(x, S):
        return x.imag
    if isinstance(x, (list, tuple)):
        x = obj(x)
    return x.imag if hasattr(x, 'imag') else np.imag(x)


def conj(x, *a, **k):
    if isinstance(x, (list, tuple)):
        x = obj(x)
    return vec(_conj, x) if isinstance(x, np.ndarray) else x.conjugate()


def arctan2(y, x):
    if symbolic(y) or symbolic(x):
        return vec2(lambda a, b: _atan2(S_of(a), S_of(b)), y, x)
    return np.arctan2(y, x)


def _isreal1(x):
    if isinstance(x, S):
        return mkbool(x.im, '==')
    return bool(np.isreal(x))


def isreal(x):
    if isinstance(x, S):
        r = _isreal1(x)
        return np.bool_(r) if isinstance(r, bool) else r
    if symbolic(x):
        return vec(_isreal1, obj(x))
    return np.isreal(x)


def iscomplex(x):
    if isinstance(x, S):
        r = s_not(_isreal1(x))
        return np.bool_(r) if isinstance(r, bool) else r
    if symbolic(x):
        return vec(lambda e: s_not(_isreal1(e)), obj(x))
    return np.iscomplex(x)


def _npbool(r):
    return np.bool_(r) if isinstance(r, bool) else r


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if any(symbolic(t) for t in (a, b, rtol, atol)):
        if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
            return vec2(lambda x, y: close(x, y, rtol, atol), obj(a), obj(b))
        return _npbool(close(a, b, rtol, atol))
    return np.isclose(a, b, rtol=rtol, atol=atol)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(a, b, rtol, atol)
    if isinstance(r, np.ndarray):
        return s_and(list(np.asarray(r).reshape(-1)))
    return r if isinstance(r, SBool) else bool(r)


def array_equal(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return s_and([x == y for x, y in zip(a.reshape(-1), b.reshape(-1))])


def all_(a, axis=None, **k):
    if symbolic(a):
        return obj(a).all(axis)
    return np.all(a, axis=axis, **k)


def any_(a, axis=None, **k):
    if symbolic(a):
        return obj(a).any(axis)
    return np.any(a, axis=axis, **k)


def clip(x, lo, hi, **k):
    def one(e):
        if isinstance(e, S):
            if lo is not None and bool(e < lo):
                return lo
            if hi is not None and bool(e > hi):
                return hi
            return e
        return float(np.clip(e, lo, hi))
    if symbolic(x):
        return vec(one, obj(x)) if isinstance(x, np.ndarray) else one(x)
    return np.clip(x, lo, hi, **k)


def maximum(a, b):
    if symbolic(a) or symbolic(b):
        return vec2(lambda x, y: x if bool(x >= y) else y, a, b)
    return np.maximum(a, b)


def minimum(a, b):
    if symbolic(a) or symbolic(b):
        return vec2(lambda x, y: x if bool(x <= y) else y, a, b)
    return np.minimum(a, b)


def where(c, *a):
    if not a:
        if symbolic(c):
            c = vec(bool, obj(c)).astype(bool)
        return np.where(c)
    if symbolic(c):
        c = vec(bool, obj(c)) if isinstance(c, np.ndarray) else bool(c)
    r = np.where(np.asarray(c).astype(bool), obj(a[0]), obj(a[1]))
    return wrap(r)


def logical_not(a):
    return vec(s_not, a)


def logical_and(a, b):
    return vec2(lambda x, y: s_and([x, y]), a, b)


def logical_or(a, b):
    return vec2(lambda x, y: s_or([x, y]), a, b)


# ------------------------------------------------------------------------------------------------ order statistics
def max_of(items):
    """symbolic maximum of reals: one symbol, no fork"""
    items = [S_of(x) for x in items]
    for i in items:
        if i.im:
            raise Unsupported('max of complex')
    consts = [i for i in items if i.numconst()]
    rest = [i for i in items if not i.numconst()]
    if not rest:
        return max(consts, key=lambda s: float(s))
    if consts:
        rest.append(max(consts, key=lambda s: float(s)))
    uniq = {}
    for i in rest:
        uniq[pkey(i.re)] = i
    if len(uniq) == 1:
        return rest[0]
    key = ('max', frozenset(uniq))
    r = _memo.get(key)
    if r is None:
        v = VARS.var(_fresh('max', key))
        zv = z3var(v)
        ts = [z3poly(i.re) for i in uniq.values()]
        vs = set()
        for i in uniq.values():
            vs |= pvars(i.re)
        DEFS.add_def([v], z3.And(z3.And([zv >= t for t in ts]), z3.Or([zv == t for t in ts])), vs)
        ps = [i.re for i in uniq.values()]
        DEFS.add_numeric([v], lambda e: [max(peval(p, e) for p in ps)])
        r = _memo[key] = S({(v,): 1})
    return r


def amax(a, axis=None, *_, **k):
    if symbolic(a):
        a = obj(a)
        if axis is not None:
            return wrap(np.apply_along_axis(lambda c: max_of(c), axis, a))
        return max_of(list(a.reshape(-1)))
    return np.max(a, axis=axis, **k)


def amin(a, axis=None, *_, **k):
    if symbolic(a):
        a = obj(a)
        if axis is not None:
            raise Unsupported('min(axis)')
        return -max_of([-x for x in a.reshape(-1)])
    return np.min(a, axis=axis, **k)


def argmax_list(vals):
    """index of the first maximum: one path per possible winner"""
    vals = [S_of(x) if not isinstance(x, S) else x for x in vals]
    if len(vals) == 1:
        return 0
    if all(v.numconst() for v in vals):
        f = [float(v) for v in vals]
        return f.index(max(f))
    opts, idx = [], []
    for i, v in enumerate(vals):
        cs = []
        for j, w in enumerate(vals):
            if j < i:
                cs.append(v > w)
            elif j > i:
                cs.append(v >= w)
        c = s_and(cs)
        if c is False:
            continue
        if c is True:
            return i
        idx.append(i)
        opts.append((c.c, c.vs))
    return idx[ENGINE.choose(opts)]


def argmax(a, axis=None, **k):
    if symbolic(a):
        if axis is not None and obj(a).ndim > 1:
            raise Unsupported('argmax(axis)')
        return argmax_list(list(obj(a).reshape(-1)))
    return np.argmax(a, axis=axis)


def argmin(a, axis=None, **k):
    if symbolic(a):
        return argmax_list([-x for x in obj(a).reshape(-1)])
    return np.argmin(a, axis=axis)


# ------------------------------------------------------------------------------------------------ linear algebra
EIGH = []     # (H, S, V) of every symbolic eigendecomposition


def mat_key(a):
    return (a.shape,) + tuple((pkey(S_of(x).re), pkey(S_of(x).im)) for x in a.reshape(-1))


def clean(a):
    """drop numerical noise of float constants"""
    def g(x):
        if isinstance(x, S):
            return S(P.prune(x.re, 1e-12), P.prune(x.im, 1e-12))
        s = S_of(x)
        return S(P.prune(s.re, 1e-12), P.prune(s.im, 1e-12))
    return vec(g, obj(a))


def fresh_matrix(name, shape, numeric, real_=False):
    """content-keyed matrix of symbols; numeric(env) -> ndarray"""
    ids = []
    ent = []
    for i in range(int(np.prod(shape))):
        r = VARS.var('%s_%d' % (name, i))
        if real_:
            ids.append(r)
            ent.append(S({(r,): 1}))
        else:
            m = VARS.var('%s_%di' % (name, i))
            ids += [r, m]
            ent.append(S({(r,): 1}, {(m,): 1}))
    out = np.empty(len(ent), dtype=object)
    out[:] = ent
    return ids, sym(out.reshape(shape))


def num_array(a, env):
    from .scalar import numeric
    a = obj(a)
    out = np.empty(a.shape, dtype=complex)
    f = out.reshape(-1)
    for i, x in enumerate(a.reshape(-1)):
        f[i] = numeric(x, env)
    return out


def eigh(H, *a, **k):
    if not symbolic(H):
        return np.linalg.eigh(H)
    H = clean(H)
    if is_const_array(H):
        s, v = np.linalg.eigh(to_complex(H))
        return obj(s), obj(v)
    n = H.shape[0]
    # eigh reads one triangle only: the matrix it diagonalises is the Hermitian completion of it
    L = sym(np.empty((n, n), dtype=object))
    for i in range(n):
        for j in range(n):
            if i == j:
                L[i, j] = S_of(H[i, j]).real
            elif i > j:
                L[i, j] = H[i, j]
            else:
                L[i, j] = S_of(H[j, i]).conjugate()
    key = ('eigh', mat_key(L))
    r = _memo.get(key)
    if r is None:
        nm = _fresh('eigh', key)
        cache = {}

        def dec(env):
            return np.linalg.eigh(num_array(L, env))
        sid, Sv = fresh_matrix('S' + nm, (n,), None, real_=True)
        if n == 2:
            vid, V = param_unitary2('V' + nm, lambda e: dec(e)[1])
            DEFS.add_numeric(sid, lambda e: list(dec(e)[0]))
        else:
            vid, V = fresh_matrix('V' + nm, (n, n), None)

        def nums(env):
            s, v = dec(env)
            out = list(s)
            for x in v.reshape(-1):
                out += [x.real, x.imag]
            return out
        if n != 2:
            DEFS.add_numeric(sid + vid, nums)
        DEFS.abstract.update(sid + vid)

        def lemma():
            # L V = V diag(S), V^dag V = 1
            out = []
            A = L @ V - V * np.asarray(Sv)[None, :]
            B = V.conj().T @ V - np.eye(n)
            for x in list(A.reshape(-1)) + list(B.reshape(-1)):
                x = S_of(x)
                for p in (x.re, x.im):
                    if p:
                        out.append((z3poly(p) == 0, frozenset(pvars(p))))
            return out
        DEFS.add_lemma(sid + vid, lemma)
        r = _memo[key] = (Sv, V)
        EIGH.append((L, Sv, V))
    return r[0].copy(), r[1].copy()


def eigvalsh(H, *a, **k):
    if not symbolic(H):
        return np.linalg.eigvalsh(H)
    s, _ = eigh(H)
    if not is_const_array(s):
        # the eigenvalues add up to the trace
        t = S_of(0)
        for i in range(len(s)):
            t = t + S_of(obj(H)[i, i]).real
        for x in s[:-1]:
            t = t - x
        s[-1] = t
    return s


def singular_values(U):
    U = clean(U)
    if is_const_array(U):
        return obj(np.linalg.svd(to_complex(U), compute_uv=False))
    key = ('svdvals', mat_key(U))
    r = _memo.get(key)
    if r is None:
        nm, k = _fresh('sv', key), min(U.shape)
        sid, Sv = fresh_matrix('s' + nm, (k,), None, real_=True)
        DEFS.add_numeric(sid, lambda env: list(np.linalg.svd(num_array(U, env), compute_uv=False)))
        zs = [z3var(i) for i in sid]
        DEFS.add_def(sid, z3.And([z >= 0 for z in zs] + [zs[i] >= zs[i + 1] for i in range(k - 1)]), [])
        # the squares add up to the squared Frobenius norm
        t = S_of(0)
        for x in U.reshape(-1):
            x = S_of(x)
            t = t + x.real * x.real + x.imag * x.imag
        for x in Sv[:-1]:
            t = t - x * x
        VARS.rules[sid[-1]] = t.re
        from .scalar import _nonneg
        _nonneg.update(sid)
        DEFS.abstract.update(sid)
        DEFS.add_def([sid[-1]], zs[-1] * zs[-1] == z3poly(t.re), pvars(t.re))
        r = _memo[key] = Sv
    return r.copy()


def around(a, decimals=0, out=None):
    from .scalar import rounded
    if symbolic(a):
        return vec(lambda x: rounded(x, decimals), obj(a)) if isinstance(a, np.ndarray) else rounded(a, decimals)
    return np.round(a, decimals)


def param_unitary2(nm, numeric):
    """2x2 unitary e^{ig} [[a, -conj(b)], [b, conj(a)]] with rewrite rules for |a|^2+|b|^2 = 1 and the phase"""
    ids = [VARS.var(nm + s) for s in ('c', 's', 'ar', 'ai', 'br', 'bi')]
    c, s, ar, ai, br, bi = ids
    VARS.rules[s] = {(): 1, (c, c): -1}
    VARS.rules[bi] = {(): 1, (ar, ar): -1, (ai, ai): -1, (br, br): -1}
    z = [z3var(i) for i in ids]
    DEFS.add_def([c, s], z[0] * z[0] + z[1] * z[1] == 1, [])
    DEFS.add_def([ar, ai, br, bi], z[2] * z[2] + z[3] * z[3] + z[4] * z[4] + z[5] * z[5] == 1, [])
    v = lambda i: {(i,): 1}
    g = S(v(c), v(s))
    a, b = S(v(ar), v(ai)), S(v(br), v(bi))
    U = np.empty((2, 2), dtype=object)
    U[0, 0], U[0, 1], U[1, 0], U[1, 1] = g * a, -(g * b.conjugate()), g * b, g * a.conjugate()
    if numeric:
        def num(env):
            M = numeric(env)
            d = np.linalg.det(M)
            ph = np.sqrt(d)
            A, B = M[0, 0] / ph, M[1, 0] / ph
            return [ph.real, ph.imag, A.real, A.imag, B.real, B.imag]
        DEFS.add_numeric(ids, num)
    return ids, sym(U)


def _svd_scaled(U, key):
    """U U^dag = p*1 for a positive p: every decomposition is U = (U Q^dag / sqrt p) diag(sqrt p) Q with Q unitary"""
    W = clean(U @ U.conj().T)
    p = S_of(W[0, 0])
    if S_of(W[0, 1]).re or S_of(W[0, 1]).im or P.prune(psub(S_of(W[1, 1]).re, p.re)) or p.im:
        return None
    if not bool(p > 0):
        return None
    r = p.sqrt()
    nm = _fresh('svd', key)
    qid, Qm = param_unitary2('Q' + nm, lambda env: np.linalg.svd(num_array(U, env))[2])
    V = vec(lambda x: S_of(x) / r, U)
    res = _memo[key] = (V @ Qm.conj().T, obj([r, r]), Qm)
    return res


def svd(U, *a, **k):
    if not symbolic(U):
        return np.linalg.svd(U, *a, **k)
    if k.get('compute_uv') is False or len(a) > 1 and not a[1]:
        return singular_values(U)
    U = clean(U)
    if is_const_array(U):
        p, s, q = np.linalg.svd(to_complex(U))
        return obj(p), obj(s), obj(q)
    if U.shape != (2, 2):
        n = U.shape[0]
        if U.shape != (n, n):
            raise Unsupported('svd of a non-square symbolic matrix')
    key = ('svd', mat_key(U))
    r = _memo.get(key)
    if r is None and U.shape[0] == 2:
        r = _svd_scaled(U, key)
    if r is None:
        nm = _fresh('svd', key)
        n = U.shape[0]

        def dec(env):
            return np.linalg.svd(num_array(U, env))
        if n == 2:
            pid, Pm = param_unitary2('P' + nm, lambda e: dec(e)[0])
            qid, Qm = param_unitary2('Q' + nm, lambda e: dec(e)[2])
        else:
            pid, Pm = fresh_matrix('P' + nm, (n, n), None)
            qid, Qm = fresh_matrix('Q' + nm, (n, n), None)

            def both(env):
                p, _, q = dec(env)
                out = []
                for m in (p, q):
                    for x in m.reshape(-1):
                        out += [x.real, x.imag]
                return out
            DEFS.add_numeric(pid + qid, both)
        DEFS.abstract.update(pid + qid)
        sid, Sv = fresh_matrix('s' + nm, (n,), None, real_=True)
        DEFS.add_numeric(sid, lambda env: list(dec(env)[1]))
        zs = [z3var(i) for i in sid]
        DEFS.add_def(sid, z3.And([z >= 0 for z in zs] + [zs[i] >= zs[i + 1] for i in range(n - 1)]), [])

        def lemma():
            A = (Pm * np.asarray(Sv)[None, :]) @ Qm - U
            out = []
            for x in A.reshape(-1):
                x = S_of(x)
                for p in (x.re, x.im):
                    if p:
                        out.append((z3poly(p) == 0, frozenset(pvars(p))))
            return out
        DEFS.add_lemma(pid + qid + sid, lemma)
        r = _memo[key] = (Pm, Sv, Qm)
    return tuple(x.copy() for x in r)


def norm(a, ord=None, axis=None, **k):
    if not symbolic(a):
        return np.linalg.norm(a, ord=ord, axis=axis)
    a = obj(a)
    if ord not in (None, 'fro', 2):
        raise Unsupported('norm')
    if isinstance(axis, tuple):
        if ord == 2 or set(x % a.ndim for x in axis) != set(range(a.ndim)):
            raise Unsupported('norm')
        axis = None
    if axis is not None:
        m = np.moveaxis(np.asarray(a), axis, -1)
        out = np.empty(m.shape[:-1], dtype=object)
        for i in np.ndindex(*m.shape[:-1]):
            out[i] = norm(sym(m[i]))
        return sym(out)
    if ord == 2 and a.ndim > 1:
        raise Unsupported('spectral norm')
    t = S({})
    for x in a.reshape(-1):
        x = S_of(x)
        t = t + x.real * x.real + x.imag * x.imag
    from .scalar import _sqrt
    return S(_sqrt(t.re, nonneg=True))


def _const_only(fn):
    def f(a, *r, **k):
        if symbolic(a):
            if not is_const_array(a):
                raise Unsupported('%s of a symbolic matrix' % fn.__name__)
            return wrap(_map_obj(fn(to_complex(a), *r, **k)))
        return fn(a, *r, **k)
    f.__name__ = fn.__name__
    return f


def _map_obj(r):
    if isinstance(r, tuple):
        return tuple(_map_obj(x) for x in r)
    return obj(r) if isinstance(r, np.ndarray) else r


def det(a):
    if symbolic(a) and not is_const_array(a):
        a = obj(a)
        if a.shape == (1, 1):
            return a[0, 0]
        if a.shape == (2, 2):
            return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
        n = a.shape[0]
        t = 0
        for j in range(n):
            t = t + (-1) ** j * a[0, j] * det(np.delete(np.delete(a, 0, 0), j, 1))
        return t
    return np.linalg.det(to_complex(a) if symbolic(a) else a)


def matrix_power(a, n):
    r = obj(np.eye(a.shape[0]))
    for _ in range(n):
        r = r @ a
    return r


def einsum(*args, **k):
    k.pop('optimize', None)
    args = [obj(a) if isinstance(a, np.ndarray) else a for a in args]
    return wrap(np.einsum(*args, **k))


def matmul(a, b):
    return wrap(np.matmul(obj(a), obj(b)) if symbolic(a) or symbolic(b) else np.matmul(a, b))


def vdot(a, b):
    if symbolic(a) or symbolic(b):
        return np.sum(vec(_conj, obj(a)).reshape(-1) * obj(b).reshape(-1))
    return np.vdot(a, b)


def prod(a, *r, **k):
    if symbolic(a) or isinstance(a, (list, tuple)):
        t = 1.0
        for x in (obj(a).reshape(-1)):
            t = t * x
        return t
    return np.prod(a, *r, **k)


def std_sum(a, axis=None, **k):
    if symbolic(a) or isinstance(a, (list, tuple)):
        a = obj(a)
        k.pop('dtype', None)
        return wrap(np.sum(np.asarray(a), axis=axis, **k))
    return np.sum(a, axis=axis, **k)


def diag(a, k=0):
    return wrap(np.diag(obj(a) if symbolic(a) else a, k))


def trace(a, *r, **k):
    if symbolic(a):
        return wrap(np.trace(np.asarray(obj(a)), *r, **k))
    return np.trace(a, *r, **k)


def full(shape, v, dtype=None, **k):
    if symbolic(v) or kind_of(dtype) in (None, 'f', 'c'):
        r = np.empty(shape, dtype=object)
        r[...] = v
        return sym(r)
    return np.full(shape, v, dtype=base_type(dtype), **k)


# ------------------------------------------------------------------------------------------------ random
class RandomModule(types.ModuleType):
    """every random draw is an arbitrary value"""

    def __init__(self):
        super().__init__('numpy.random')

    def seed(self, *a, **k):
        pass

    def randn(self, *shape):
        return ENGINE.env.havoc_real('randn', shape)

    def standard_normal(self, size=None):
        return ENGINE.env.havoc_real('randn', size if isinstance(size, tuple) else (() if size is None else (size,)))

    def normal(self, loc=0.0, scale=1.0, size=None):
        sh = size if isinstance(size, tuple) else (() if size is None else (size,))
        return ENGINE.env.havoc_real('randn', sh) * scale + loc

    def rand(self, *shape):
        return ENGINE.env.havoc_real('rand', shape, 0, 1)

    def random(self, size=None):
        sh = size if isinstance(size, tuple) else (() if size is None else (size,))
        return ENGINE.env.havoc_real('rand', sh, 0, 1)

    def uniform(self, low=0.0, high=1.0, size=None):
        sh = size if isinstance(size, tuple) else (() if size is None else (size,))
        return ENGINE.env.havoc_real('rand', sh, 0, 1) * (high - low) + low

    def choice(self, a, size=None, replace=True, p=None):
        a = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if size in (1, (1,)):
            return np.array([a[ENGINE.env.havoc_choice('choice', len(a))]])
        if size is None:
            return a[ENGINE.env.havoc_choice('choice', len(a))]
        raise Unsupported('random.choice(size)')

    def randint(self, low, high=None, size=None):
        if high is None:
            low, high = 0, low
        if size is not None:
            raise Unsupported('randint(size)')
        return low + ENGINE.env.havoc_choice('randint', high - low)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('np.random.%s' % n)


class LinalgModule(types.ModuleType):
    def __init__(self):
        super().__init__('numpy.linalg')
        self.eigh, self.svd, self.norm, self.det, self.matrix_power = eigh, svd, norm, det, matrix_power
        self.eigvalsh = eigvalsh
        for n in ('eigvals', 'eig', 'inv', 'matrix_rank', 'solve', 'pinv', 'qr'):
            setattr(self, n, _const_only(getattr(np.linalg, n)))
        self.LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('np.linalg.%s' % n)


def _generic(fn):
    def f(*a, **k):
        if 'dtype' in k:
            k['dtype'] = base_type(k['dtype'])
        a = [base_type(x) if isinstance(x, _ShimMeta) else x for x in a]
        return wrap(fn(*a, **k))
    f.__name__ = getattr(fn, '__name__', 'f')
    return f


class NumpyModule(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        o = self.__dict__
        for n in ('zeros', 'ones', 'eye', 'identity', 'empty', 'linspace'):
            o[n] = _ctor(getattr(np, n))
        o['empty'] = lambda shape, dtype=float, **k: _created(np.zeros(shape, dtype=base_type(dtype)))
        for n in ('zeros_like', 'ones_like'):
            o[n] = _like(getattr(np, n))
        o['empty_like'] = o['zeros_like']
        o.update(array=array, asarray=asarray, copy=copy_, full=full, ascontiguousarray=asarray,
                 abs=_abs, absolute=_abs, real=real, imag=imag, conj=conj, conjugate=conj, arctan2=arctan2,
                 isreal=isreal, iscomplex=iscomplex, isclose=isclose, allclose=allclose, array_equal=array_equal,
                 all=all_, any=any_, clip=clip, maximum=maximum, minimum=minimum, where=where,
                 logical_not=logical_not, logical_and=logical_and, logical_or=logical_or,
                 max=amax, amax=amax, min=amin, amin=amin, argmax=argmax, argmin=argmin,
                 einsum=einsum, matmul=matmul, round=around, around=around, round_=around, vdot=vdot, prod=prod, sum=std_sum, diag=diag, trace=trace,
                 random=RandomModule(), linalg=LinalgModule(), ndarray=np.ndarray, newaxis=None,
                 int=IntShim, float=FloatShim, complex=ComplexShim, bool=BoolShim,
                 pi=np.pi, inf=np.inf, nan=np.nan, e=np.e)
        for n in ('exp', 'cos', 'sin', 'sqrt', 'arccos', 'sign'):
            o[n] = _unary(n, getattr(np, n))
        o['square'] = lambda x: x * x
        o['isnan'] = lambda x: vec(lambda e: False, x) if symbolic(x) else np.isnan(x)
        o['isfinite'] = lambda x: vec(lambda e: True, x) if symbolic(x) else np.isfinite(x)
        o['__version__'] = '1.22.4'

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        v = getattr(np, n)
        if isinstance(v, type) or not callable(v):
            return v
        w = _generic(v)
        self.__dict__[n] = w
        return w


SNP = NumpyModule()
