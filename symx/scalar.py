"""Symbolic scalars: complex numbers whose real and imaginary parts are polynomials (symx.poly), and conditions on
them.  Functions outside polynomials (sqrt, |.|, cos, atan2, ...) introduce symbols that are keyed by the canonical
form of their argument, so equal arguments give the same symbol; each carries its defining constraint for z3."""
from fractions import Fraction
import cmath
import math
import numbers
import numpy as _np
import z3
from . import poly as P
from .poly import VARS, padd, psub, pmul, pneg, pscale, pconst, pvar, pkey, pvars, peval, is_const, const_val
from .engine import ENGINE, DEFS, Unsupported, z3poly, z3var, rat


class NotANumber(ArithmeticError):
    """the real code would produce nan/inf here"""


# ------------------------------------------------------------------------------------------------ conditions
class SBool:
    __slots__ = ('c', 'vs')
    __array_priority__ = 1000

    def __init__(self, c, vs):
        self.c = c
        self.vs = frozenset(vs)

    def __bool__(self):
        return ENGINE.branch(self.c, self.vs)

    def __and__(self, o):
        o = as_bool(o)
        if o is True:
            return self
        if o is False:
            return False
        return SBool(z3.And(self.c, o.c), self.vs | o.vs)
    __rand__ = __and__
    __mul__ = __and__
    __rmul__ = __and__

    def __or__(self, o):
        o = as_bool(o)
        if o is True:
            return True
        if o is False:
            return self
        return SBool(z3.Or(self.c, o.c), self.vs | o.vs)
    __ror__ = __or__

    def __xor__(self, o):
        o = as_bool(o)
        if o is True:
            return ~self
        if o is False:
            return self
        return SBool(z3.Xor(self.c, o.c), self.vs | o.vs)
    __rxor__ = __xor__

    def __invert__(self):
        return SBool(z3.Not(self.c), self.vs)

    def __eq__(self, o):
        if isinstance(o, (SBool, bool, _np.bool_)):
            return ~(self ^ o) if isinstance(self ^ o, SBool) else not (self ^ o)
        return bool(self) == o

    def __ne__(self, o):
        r = (self == o)
        return ~r if isinstance(r, SBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __repr__(self):
        return 'SBool(%s)' % (self.c,)

    # numpy calls these on object arrays
    def logical_not(self):
        return ~self

    def all(self, *a, **k):
        return self

    any = all

    def item(self):
        return self


def as_bool(o):
    if isinstance(o, SBool):
        return o
    if isinstance(o, S):
        return o != 0
    if isinstance(o, _np.ndarray):
        if o.size == 1:
            return as_bool(o.reshape(-1)[0])
        raise Unsupported('array used as condition')
    return bool(o)


def s_and(items):
    cs, vs = [], set()
    for i in items:
        i = as_bool(i)
        if i is False:
            return False
        if i is True:
            continue
        cs.append(i.c)
        vs |= i.vs
    if not cs:
        return True
    return SBool(z3.And(cs) if len(cs) > 1 else cs[0], vs)


def s_or(items):
    cs, vs = [], set()
    for i in items:
        i = as_bool(i)
        if i is True:
            return True
        if i is False:
            continue
        cs.append(i.c)
        vs |= i.vs
    if not cs:
        return False
    return SBool(z3.Or(cs) if len(cs) > 1 else cs[0], vs)


def s_not(b):
    b = as_bool(b)
    return ~b if isinstance(b, SBool) else (not b)


def s_implies(a, b):
    return s_or([s_not(a), b])


def mkbool(p, op):
    """p op 0 for a polynomial p"""
    if is_const(p):
        v = const_val(p)
        return {'<': v < 0, '<=': v <= 0, '==': v == 0, '!=': v != 0, '>': v > 0, '>=': v >= 0}[op]
    t = z3poly(p)
    z = z3.RealVal(0)
    c = {'<': t < z, '<=': t <= z, '==': t == z, '!=': t != z, '>': t > z, '>=': t >= z}[op]
    return SBool(c, pvars(p))


# ------------------------------------------------------------------------------------------------ scalars
def parts(x):
    """(re, im) polynomials of any number, or None"""
    if isinstance(x, S):
        return x.re, x.im
    if isinstance(x, (bool, _np.bool_)):
        return pconst(int(x)), {}
    if isinstance(x, (int, _np.integer)):
        return pconst(int(x)), {}
    if isinstance(x, Fraction):
        return pconst(P._norm(x)), {}
    if isinstance(x, (float, _np.floating)):
        return P.from_float(float(x)), {}
    if isinstance(x, (complex, _np.complexfloating)):
        return P.from_float(float(x.real)), P.from_float(float(x.imag))
    if isinstance(x, SBool):
        return pconst(int(bool(x))), {}
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return parts(x[()])
    return None


def S_of(x):
    if isinstance(x, S):
        return x
    p = parts(x)
    if p is None:
        raise Unsupported('cannot lift %r' % type(x))
    return S(*p)


def _lift(s):
    a = _np.empty((), dtype=object)
    a[()] = s
    return a


def _is_inf(o):
    return isinstance(o, (float, _np.floating)) and math.isinf(o)


def _is_nan(o):
    return isinstance(o, (float, _np.floating)) and math.isnan(o)


class S:
    __slots__ = ('re', 'im')
    __array_priority__ = 1000

    def __init__(self, re, im=None):
        self.re = re
        self.im = im if im is not None else {}

    # ---- arithmetic
    def _bin(self, o, f, rev=False):
        if isinstance(o, _np.ndarray) and o.ndim:
            from .snp import obj
            a, b = (obj(o), _lift(self)) if rev else (_lift(self), obj(o))
            return f(a, b)
        return None

    def __add__(self, o):
        p = parts(o)
        if p is None:
            r = self._bin(o, _np.add)
            return NotImplemented if r is None else r
        return S(padd(self.re, p[0]), padd(self.im, p[1]))

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        p = parts(o)
        if p is None:
            r = self._bin(o, _np.subtract)
            return NotImplemented if r is None else r
        return S(psub(self.re, p[0]), psub(self.im, p[1]))

    def __rsub__(self, o):
        p = parts(o)
        if p is None:
            r = self._bin(o, _np.subtract, True)
            return NotImplemented if r is None else r
        return S(psub(p[0], self.re), psub(p[1], self.im))

    def __mul__(self, o):
        if type(o) is not S:
            if type(o) is int or type(o) is complex or type(o) is float:
                if o == 0:
                    return 0
                if o == 1:
                    return self
                if o == -1:
                    return S(pneg(self.re), pneg(self.im))
        p = parts(o)
        if p is None:
            r = self._bin(o, _np.multiply)
            return NotImplemented if r is None else r
        a, b = self.re, self.im
        c, d = p
        if not d:
            return S(pmul(a, c), pmul(b, c))
        if not b:
            return S(pmul(a, c), pmul(a, d))
        return S(psub(pmul(a, c), pmul(b, d)), padd(pmul(a, d), pmul(b, c)))

    def __rmul__(self, o):
        return self.__mul__(o)

    def __neg__(self):
        return S(pneg(self.re), pneg(self.im))

    def __pos__(self):
        return self

    def __truediv__(self, o):
        p = parts(o)
        if p is None:
            r = self._bin(o, _np.true_divide)
            return NotImplemented if r is None else r
        return divide(self, S(*p))

    def __rtruediv__(self, o):
        p = parts(o)
        if p is None:
            r = self._bin(o, _np.true_divide, True)
            return NotImplemented if r is None else r
        return divide(S(*p), self)

    def __pow__(self, n):
        if isinstance(n, (float, _np.floating)) and float(n).is_integer():
            n = int(n)
        if isinstance(n, float) and n == 0.5:
            return self.sqrt()
        if isinstance(n, S) and n.is_const():
            n = n.pyval()
            n = int(n) if n == int(n) else n
        if isinstance(n, (int, _np.integer)):
            n = int(n)
            if n < 0:
                return 1 / (self ** (-n))
            r = S(pconst(1))
            for _ in range(n):
                r = r * self
            return r
        raise Unsupported('power')

    def __rpow__(self, b):
        if self.is_const():
            return b ** self.pyval()
        raise Unsupported('symbolic exponent')

    def __mod__(self, o):
        m = S_of(o)
        if self.im or m.im or not _const_positive(m.re):
            raise Unsupported('modulo')
        opts = []
        for k in (0, -1, 1, -2, 2, -3, 3):
            lo = psub(self.re, pscale(m.re, k))
            c = s_and([mkbool(lo, '>='), mkbool(psub(lo, m.re), '<')])
            if c is True:
                return S(lo)
            if c is False:
                continue
            opts.append((k, c))
        rest = s_and([s_not(c) for _, c in opts])
        cand = [(c.c, c.vs) for _, c in opts]
        if not isinstance(rest, bool):
            cand.append((rest.c, rest.vs))
        i = ENGINE.choose(cand)
        if i == len(opts):
            raise Unsupported('modulo outside +-3 periods')
        return S(psub(self.re, pscale(m.re, opts[i][0])))

    def __abs__(self):
        if self.im:
            if not self.re:
                return S(_abs_real(self.im))
            return S(_sqrt(padd(pmul(self.re, self.re), pmul(self.im, self.im)), nonneg=True))
        return S(_abs_real(self.re))

    def conjugate(self):
        return S(self.re, pneg(self.im))
    conj = conjugate

    @property
    def real(self):
        return S(self.re)

    @property
    def imag(self):
        return S(self.im)

    # ---- comparisons
    def _cmp(self, o, op):
        if _is_inf(o):
            pos = o > 0
            return {'<': pos, '<=': pos, '>': not pos, '>=': not pos}[op]
        if _is_nan(o):
            return False
        p = parts(o)
        if p is None:
            return NotImplemented
        if self.im or p[1]:
            if op in ('<', '<=', '>', '>='):
                raise TypeError('ordering of complex numbers')
        return mkbool(psub(self.re, p[0]), op)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        if _is_inf(o) or _is_nan(o):
            return False
        p = parts(o)
        if p is None:
            if isinstance(o, _np.ndarray):
                return self._bin(o, _np.equal)
            return NotImplemented
        return s_and([mkbool(psub(self.re, p[0]), '=='), mkbool(psub(self.im, p[1]), '==')])

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return s_not(r)

    def __hash__(self):
        if self.is_const():
            return hash(self.pyval())
        if not self.im and all(VARS.is_int[v] for v in pvars(self.re)):
            return hash(concretize_int(self))
        raise Unsupported('hash of a symbolic real')

    def __bool__(self):
        r = self != 0
        return bool(r)

    # ---- conversions
    def is_const(self):
        return is_const(self.re) and is_const(self.im)

    def numconst(self):
        """no free inputs: constants, sqrt2 and pi only"""
        return all(v in (P.R2, P.PI) for v in pvars(self.re) | pvars(self.im))

    def pyval(self):
        e = {P.R2: math.sqrt(2), P.PI: math.pi}
        re, im = peval(self.re, e), peval(self.im, e)
        if not self.im:
            if is_const(self.re):
                c = const_val(self.re)
                return c if isinstance(c, int) else float(c)
            return re
        return complex(re, im)

    def __float__(self):
        if self.numconst() and not self.im:
            return float(self.pyval())
        raise Unsupported('float() of a symbolic value outside the instrumented builtins')

    def __complex__(self):
        if self.numconst():
            return complex(self.pyval())
        raise Unsupported('complex() of a symbolic value outside the instrumented builtins')

    def __index__(self):
        if self.im:
            raise TypeError('complex used as an index')
        if is_const(self.re):
            c = const_val(self.re)
            if isinstance(c, int):
                return c
            raise TypeError('non-integer index')
        vs = pvars(self.re)
        if all(VARS.is_int[v] for v in vs):
            return concretize_int(self)
        raise TypeError('symbolic real used as an index')

    def __int__(self):
        if self.numconst() and not self.im:
            return int(self.pyval())
        return self.__index__()

    def __round__(self, n=None):
        if self.numconst():
            return round(self.pyval(), n)
        return rounded(self, n or 0)

    def __repr__(self):
        return 'S(%s, %s)' % (show(self.re), show(self.im))

    def __str__(self):
        # equal canonical forms print equally, different ones differently
        if self.numconst():
            return str(self.pyval())
        return 'sym[%s|%s]' % tuple(
            '+'.join('%s*%s' % (c, '.'.join(VARS.names[v] for v in m)) for m, c in sorted(p.items()))
            for p in (self.re, self.im))

    def __format__(self, spec):
        return self.__str__() if not spec else '<sym>'

    # ---- what numpy's object ufuncs call
    def sqrt(self):
        if self.im:
            if self.numconst():
                return S_of(cmath.sqrt(self.pyval()))
            raise Unsupported('complex square root')
        return S(_sqrt(self.re))

    def exp(self):
        if self.re:
            if self.numconst():
                return S_of(cmath.exp(complex(self.pyval())))
            raise Unsupported('exp of a symbolic real')
        c, s = cos_sin(self.im)
        return S(c, s)

    def cos(self):
        self._need_real()
        return S(cos_sin(self.re)[0])

    def sin(self):
        self._need_real()
        return S(cos_sin(self.re)[1])

    def arccos(self):
        self._need_real()
        return arccos(self)

    def arctan2(self, x):
        return arctan2(self, S_of(x))

    def sign(self):
        self._need_real()
        if self > 0:
            return 1.0
        if self < 0:
            return -1.0
        return 0.0

    def _need_real(self):
        if self.im:
            raise Unsupported('complex argument')

    def isfinite(self):
        return True

    def isnan(self):
        return False

    def item(self):
        return self

    def copy(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    def tolist(self):
        return self

    def astype(self, t):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def is_integer(self):
        return self.is_const() and isinstance(const_val(self.re), int)


numbers.Complex.register(S)


def show(p):
    if not p:
        return '0'
    return ' + '.join('%s%s' % (c, ''.join('*' + VARS.names[v] for v in m)) for m, c in list(p.items())[:6]) + \
        (' ...' if len(p) > 6 else '')


def _const_positive(p):
    vs = pvars(p)
    return all(v in (P.R2, P.PI) for v in vs) and peval(p, {P.R2: math.sqrt(2), P.PI: math.pi}) > 0


def concretize_int(s, lo=-64, hi=64):
    """fork over the feasible integer values of s"""
    k = 0
    order = [0]
    for i in range(1, 65):
        order += [i, -i]
    for k in order:
        b = mkbool(psub(s.re, pconst(k)), '==')
        if bool(b):
            return k
    raise Unsupported('integer out of +-64')


# ------------------------------------------------------------------------------------------------ memoised functions
_memo = {}


def lead_sign(p):
    """sign of the coefficient of the smallest monomial (canonical)"""
    m = min(p)
    return 1 if p[m] > 0 else -1


def _fresh(kind, key):
    """variable ids are stable: the name carries the order of first creation of this (kind, key)"""
    n = _memo.setdefault(('count', kind), [0])
    n[0] += 1
    return '%s!%d' % (kind, n[0])


def _abs_real(p):
    if not p:
        return {}
    if is_const(p):
        return pconst(abs(const_val(p)))
    if _known_nonneg(p):
        return p
    if lead_sign(p) < 0:
        p = pneg(p)
        if _known_nonneg(p):
            return p
    q = _named(p, ABS_LIMIT[0])
    k = 1
    if len(p) > ABS_LIMIT[0]:
        (m, k), = q.items()
        p = {m: 1}
        k = abs(k)
    key = ('abs', pkey(p))
    r = _memo.get(key)
    if r is None:
        v = VARS.var(_fresh('abs', key))
        zv, t = z3var(v), z3poly(p)
        DEFS.add_def([v], z3.And(zv >= 0, z3.Or(zv == t, zv == -t)), pvars(p))
        DEFS.add_numeric([v], lambda e, p=p: [abs(peval(p, e))])
        _nonneg.add(v)
        VARS.rules[v] = pmul(p, p) if len(p) <= 3 else None
        if VARS.rules[v] is None:
            del VARS.rules[v]
        r = _memo[key] = pvar(v)
    return pscale(r, k)


_nonneg = {P.R2, P.PI}
ABS_LIMIT = [3]      # |p| of more terms than this is |symbol|


def _known_nonneg(p):
    """syntactically non-negative: sums of squares / products of non-negative symbols with positive coefficients"""
    for m, c in p.items():
        if c < 0:
            return False
        k = 0
        while k < len(m):
            if k + 1 < len(m) and m[k] == m[k + 1]:
                k += 2
            elif m[k] in _nonneg:
                k += 1
            else:
                return False
    return True


def _sqrt(p, nonneg=False):
    if not p:
        return {}
    if is_const(p):
        c = const_val(p)
        if c < 0:
            raise NotANumber('sqrt of a negative number')
        f = Fraction(c)
        a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if a * a == f.numerator and b * b == f.denominator:
            return pconst(P._norm(Fraction(a, b)))
        h = f / 2
        a, b = math.isqrt(h.numerator), math.isqrt(h.denominator)
        if a * a == h.numerator and b * b == h.denominator:
            return {(P.R2,): P._norm(Fraction(a, b))}
        return P.from_float(math.sqrt(f))
    # sqrt(c * v * v)
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 and len(m) == 2 and m[0] == m[1]:
            return pmul(_sqrt(pconst(c)), _abs_real(pvar(m[0])))
    nonneg = nonneg or _known_nonneg(p)
    key = ('sqrt', pkey(p))
    r = _memo.get(key)
    if r is None:
        v = VARS.var(_fresh('sqrt', key))
        zv = z3var(v)
        DEFS.add_def([v], z3.And(zv >= 0, zv * zv == z3poly(p)), pvars(p))
        DEFS.add_numeric([v], lambda e, p=p: [math.sqrt(max(0.0, peval(p, e)))])
        _nonneg.add(v)
        if len(p) <= 60:
            VARS.rules[v] = p
        r = _memo[key] = pvar(v)
    if not nonneg:
        if not bool(mkbool(p, '>=')):
            raise NotANumber('sqrt of a negative number')
    return r


def rounded(x, n=0):
    """x rounded to n decimals: a symbol within half a unit of x"""
    x = S_of(x)
    return S(_rounded(x.re, n), _rounded(x.im, n))


def _rounded(p, n):
    if is_const(p):
        return P.from_float(round(float(const_val(p)), n)) if p else {}
    key = ('round', n, pkey(p))
    r = _memo.get(key)
    if r is None:
        v = VARS.var(_fresh('round', key))
        zv, h = z3var(v), rat(Fraction(1, 2) / Fraction(10) ** n)
        t = z3poly(p)
        DEFS.add_def([v], z3.And(zv - t <= h, t - zv <= h), pvars(p))
        DEFS.add_numeric([v], lambda e, p=p: [round(peval(p, e), n)])
        DEFS.abstract.add(v)
        r = _memo[key] = pvar(v)
    return r


def named(x, limit=0):
    """a symbol for a large value (let-abstraction, keyed by its canonical form)"""
    x = S_of(x)
    return S(_named(x.re, limit), _named(x.im, limit))


def _named(p, limit):
    if len(p) <= limit or is_const(p):
        return p
    if len(p) == 1 and len(next(iter(p))) == 1:
        return p
    k = Fraction(p[min(p)])
    p = pscale(p, P._norm(1 / k))
    key = ('named', pkey(p))
    r = _memo.get(key)
    if r is None:
        v = VARS.var(_fresh('let', key))
        DEFS.add_let([v], z3var(v) == z3poly(p), pvars(p))
        DEFS.add_numeric([v], lambda e, p=p: [peval(p, e)])
        r = _memo[key] = pvar(v)
    return pscale(r, P._norm(k))


def divide(a, b):
    if b.im:
        d = padd(pmul(b.re, b.re), pmul(b.im, b.im))
        n = a * b.conjugate()
    else:
        d = b.re
        n = a
    if not d:
        raise NotANumber('division by zero')
    if is_const(d):
        k = Fraction(1) / Fraction(const_val(d))
        k = P._norm(k)
        return S(pscale(n.re, k), pscale(n.im, k))
    if len(d) == 1:
        (m, c), = d.items()
        if m == (P.R2,):
            k = P._norm(Fraction(1) / (2 * Fraction(c)))
            f = {(P.R2,): k}
            return S(pmul(n.re, f), pmul(n.im, f))
    if len(d) > 1 and P.PI in pvars(d) and S(d).numconst():
        k = P._norm(Fraction(1) / Fraction(peval(d, {P.R2: math.sqrt(2), P.PI: math.pi})))
        return S(pscale(n.re, k), pscale(n.im, k))
    s = lead_sign(d)
    q = d if s > 0 else pneg(d)
    key = ('inv', pkey(q))
    r = _memo.get(key)
    if r is None:
        v = VARS.var(_fresh('inv', key))
        DEFS.add_def([v], z3.Implies(z3poly(q) != 0, z3var(v) * z3poly(q) == 1), pvars(q))

        def num(e, q=q):
            x = peval(q, e)
            return [1.0 / x if x else math.inf]
        DEFS.add_numeric([v], num)
        r = _memo[key] = pvar(v)
    if not _const_positive(q) and bool(mkbool(q, '==')):
        raise NotANumber('division by zero')
    f = r if s > 0 else pneg(r)
    # exact division where the denominator divides the numerator
    outs = []
    for t in (n.re, n.im):
        e = exact_div(t, d)
        outs.append(e if e is not None else pmul(t, f))
    return S(*outs)


def exact_div(n, d):
    """n / d when it is a monomial multiple, else None"""
    if not n:
        return {}
    if len(n) != len(d):
        return None
    m0, md = min(n), min(d)
    rest = list(m0)
    for v in md:
        if v in rest:
            rest.remove(v)
        else:
            return None
    q = {tuple(rest): P._norm(Fraction(n[m0]) / Fraction(d[md]))}
    return q if pmul(q, d) == n else None


# ------------------------------------------------------------------------------------------------ trigonometry
def _eighth(q):
    """cos, sin of q*pi for 4q integer"""
    k = int(q * 4) % 8
    h = {(P.R2,): Fraction(1, 2)}
    one, zero, mone, mh = pconst(1), {}, pconst(-1), {(P.R2,): Fraction(-1, 2)}
    return [(one, zero), (h, h), (zero, one), (mh, h), (mone, zero), (mh, mh), (zero, mone), (h, mh)][k]


class TrigBase:
    """cos/sin of a base angle; multiples are polynomials in the pair"""
    __slots__ = ('c', 's', 'mult')

    def __init__(self, c, s):
        self.c, self.s = c, s
        self.mult = {0: (pconst(1), {}), 1: (c, s)}

    def multiple(self, n):
        if n < 0:
            c, s = self.multiple(-n)
            return c, pneg(s)
        r = self.mult.get(n)
        if r is None:
            c1, s1 = self.multiple(n - 1)
            r = self.mult[n] = (psub(pmul(c1, self.c), pmul(s1, self.s)), padd(pmul(s1, self.c), pmul(c1, self.s)))
        return r


_prims = {}   # monomials -> [(primitive angle, base)]


def _rounded_base(r0):
    """the base of an angle that differs from r0 by float rounding only"""
    for p, b in _prims.get(frozenset(r0), ()):
        if all(abs(float(p[m]) - float(c)) <= 1e-11 * abs(float(c)) for m, c in r0.items()):
            return b
    return None


_bases = {}   # key of primitive angle -> (unit Fraction, TrigBase)


def _prim(r):
    """r = k * r0 with r0 primitive (leading coefficient 1)"""
    m = min(r)
    k = Fraction(r[m])
    return k, pscale(r, P._norm(1 / k))


def declare_angle(r, unit):
    """give the angle r (polynomial) a trig pair for unit*r"""
    k, r0 = _prim(r)
    u = Fraction(unit) * k
    key = pkey(r0)
    if key in _bases:
        return
    _bases[key] = (abs(u), _new_pair(pscale(r0, abs(u))))


PAIRS = {}    # cos/sin symbol -> (its derivative by the angle, the angle)


def pderiv(p, v):
    """exact derivative of the polynomial p by the variable v; cos/sin symbols of angles that contain v included"""
    out, memo = {}, {}

    def dvar(w):
        if w not in memo:
            if w == v:
                memo[w] = pconst(1)
            elif w in PAIRS:
                d, arg = PAIRS[w]
                da = pderiv(arg, v)
                memo[w] = pmul(d, da) if da else {}
            else:
                memo[w] = {}
        return memo[w]
    for m, c in p.items():
        for k, w in enumerate(m):
            d = dvar(w)
            if d:
                out = padd(out, pmul({m[:k] + m[k + 1:]: c}, d))
    return out


def psubst(p, sub):
    """p with the variables in sub replaced, also inside the angles of its cos/sin symbols"""
    memo = {}

    def rep(w):
        if w not in memo:
            if w in sub:
                memo[w] = sub[w]
            elif w in PAIRS and pvars(PAIRS[w][1]) & set(sub):
                d, arg = PAIRS[w]
                cs = cos_sin(psubst(arg, sub))
                memo[w] = cs[1] if next(iter(d.values())) == 1 else cs[0]
            else:
                memo[w] = None
        return memo[w]
    out = {}
    for m, c in p.items():
        t, rest = {(): c}, ()
        for w in m:
            r = rep(w)
            if r is None:
                rest += (w,)
            else:
                t = pmul(t, r)
        out = padd(out, pmul(t, {rest: 1}) if rest else t)
    return out


def _new_pair(arg):
    n = _fresh('trig', None)
    c, s = VARS.var('c' + n), VARS.var('s' + n)
    VARS.rules[s] = {(): 1, (c, c): -1}
    zc, zs = z3var(c), z3var(s)
    DEFS.add_def([c, s], z3.And(zc * zc + zs * zs == 1, zc <= 1, zc >= -1, zs <= 1, zs >= -1), [])
    DEFS.abstract.update([c, s])
    DEFS.add_numeric([c, s], lambda e, a=arg: [math.cos(peval(a, e)), math.sin(peval(a, e))])
    PAIRS[c], PAIRS[s] = (pneg(pvar(s)), arg), (pvar(c), arg)
    return TrigBase(pvar(c), pvar(s))


def cos_sin(a):
    """polynomials for cos(a), sin(a)"""
    q = Fraction(0)
    r = a
    if (P.PI,) in a:
        q = Fraction(a[(P.PI,)])
        r = {m: c for m, c in a.items() if m != (P.PI,)}
    if not r:
        if (q * 4).denominator == 1:
            return _eighth(q)
        x = float(q) * math.pi
        return P.from_float(math.cos(x)), P.from_float(math.sin(x))
    if is_const(r):
        x = float(const_val(r)) + float(q) * math.pi
        return P.from_float(math.cos(x)), P.from_float(math.sin(x))
    if q and (q * 4).denominator != 1:
        x = float(q) * math.pi
        qc, qs = P.from_float(math.cos(x)), P.from_float(math.sin(x))
    else:
        qc, qs = _eighth(q)
    c, s = _cs_pure(r)
    return psub(pmul(c, qc), pmul(s, qs)), padd(pmul(s, qc), pmul(c, qs))


def _cs_pure(r):
    # a sum of declared base angles splits by the addition formulas
    if len(r) > 1 and len(r) <= 4:
        pieces = [{m: c} for m, c in r.items()]
        if sum(pkey(_prim(p)[1]) in _bases for p in pieces) >= 1 and all(
                len(next(iter(p))) == 1 for p in pieces if next(iter(p))):
            c, s = pconst(1), {}
            for p in pieces:
                if () in p:
                    x = float(p[()])
                    c2, s2 = P.from_float(math.cos(x)), P.from_float(math.sin(x))
                else:
                    c2, s2 = _cs_pure(p)
                c, s = psub(pmul(c, c2), pmul(s, s2)), padd(pmul(s, c2), pmul(c, s2))
            return c, s
    k, r0 = _prim(r)
    key = pkey(r0)
    b = _bases.get(key)
    if b is None:
        b = _rounded_base(r0)
    if b is None:
        u = abs(k)
        b = _bases[key] = (u, _new_pair(pscale(r0, P._norm(u))))
        _prims.setdefault(frozenset(r0), []).append((r0, b))
    u, base = b
    n = k / u
    if n.denominator > 64:
        near = Fraction(float(n)).limit_denominator(16)
        if near and abs(float(n / near) - 1) < 1e-11:
            n, k = near, near * u
    if n.denominator != 1:
        key2 = (key, abs(k))
        b2 = _bases.get(key2)
        if b2 is None:
            nb = _new_pair(pscale(r0, P._norm(abs(k))))
            b2 = _bases[key2] = (abs(k), nb)
            # link: a common multiple of both angles
            m = (Fraction(u) / abs(k))
            num, den = m.numerator, m.denominator
            if num <= 6 and den <= 6:
                c1, s1 = nb.multiple(num)
                c2, s2 = base.multiple(den)
                vs = pvars(c1) | pvars(c2) | pvars(s1) | pvars(s2)
                DEFS.add_def(sorted(pvars(nb.c) | pvars(nb.s)),
                             z3.And(z3poly(c1) == z3poly(c2), z3poly(s1) == z3poly(s2)), vs)
        base, n = b2[1], k / b2[0]
    return base.multiple(int(n))


def _half_pair_angle(name, value_def, numeric, extra_vars):
    """an angle symbol whose cos/sin of half the angle are the base pair; value_def(angle, ch, sh) -> z3 constraint"""
    t = VARS.var(_fresh(name, None))
    n = VARS.names[t]
    ch, sh = VARS.var('c!' + n), VARS.var('s!' + n)
    VARS.rules[sh] = {(): 1, (ch, ch): -1}
    DEFS.add_def([t, ch, sh], value_def(z3var(t), z3var(ch), z3var(sh)), extra_vars)

    def num(e):
        a = numeric(e)
        return [a, math.cos(a / 2), math.sin(a / 2)]
    DEFS.add_numeric([t, ch, sh], num)
    DEFS.abstract.update([t, ch, sh])
    _bases[pkey(pvar(t))] = (Fraction(1, 2), TrigBase(pvar(ch), pvar(sh)))
    return t


def arctan2(y, x):
    if y.im or x.im:
        raise Unsupported('arctan2 of complex')
    yp, xp = P.prune(y.re), P.prune(x.re)
    if not yp and not xp:
        return S({})
    # a common positive factor does not matter: scale so that the leading coefficient is +-1
    k = Fraction(1) / abs(Fraction((yp or xp)[min(yp or xp)]))
    yp, xp = pscale(yp, P._norm(k)), pscale(xp, P._norm(k))
    if S(yp).numconst() and S(xp).numconst():
        return S(P.from_float(math.atan2(float(S(yp)), float(S(xp)))))
    # canonical signs
    sy = lead_sign(yp) if yp else 1
    sx = lead_sign(xp) if xp else 1
    y0 = yp if sy > 0 else pneg(yp)
    x0 = xp if sx > 0 else pneg(xp)
    y0, x0 = _named(y0, 1), _named(x0, 1)
    key = ('atan2', pkey(y0), pkey(x0))
    t = _memo.get(key)
    if t is None:
        r = _sqrt(padd(pmul(y0, y0), pmul(x0, x0)), nonneg=True)
        zr, zy, zx = z3poly(r), z3poly(y0), z3poly(x0)
        pi = z3var(P.PI)

        def d(a, ch, sh):
            return z3.And(a <= pi, a > -pi, ch >= 0, ch * ch + sh * sh == 1,
                          z3.Implies(ch == 0, sh == 1),
                          zr * (2 * ch * ch - 1) == zx, 2 * zr * ch * sh == zy,
                          z3.Implies(zr == 0, z3.And(a == 0, ch == 1, sh == 0)),
                          (a >= 0) == (sh >= 0), (a == 0) == (sh == 0), 4 * sh * sh <= a * a)
        t = _memo[key] = _half_pair_angle(
            'atan2', d, lambda e: math.atan2(peval(y0, e), peval(x0, e)), pvars(y0) | pvars(x0) | pvars(r) | {P.PI})
    a = S(pvar(t))
    if sx < 0:
        # atan2(y, -x) = pi - atan2(y, x) for y > 0 (or y = 0, x > 0), -pi - atan2(y, x) for y < 0
        if bool(s_and([mkbool(y0, '=='), mkbool(x0, '<=')])):
            a = S(padd({(P.PI,): 1}, pneg(pvar(t)))) if bool(mkbool(x0, '<')) else S({})
        elif bool(mkbool(y0, '>=')):
            a = S(psub({(P.PI,): 1}, pvar(t)))
        else:
            a = S(psub({(P.PI,): -1}, pvar(t)))
    if sy < 0:
        # atan2(-y, x) = -atan2(y, x) except on the cut
        xx = x0 if sx > 0 else pneg(x0)
        if not bool(s_and([mkbool(y0, '=='), mkbool(xx, '<')])):
            a = -a
    return a


def arccos(z):
    p = P.prune(z.re)
    if S(p).numconst():
        v = float(S(p))
        if abs(v) > 1:
            raise NotANumber('arccos outside [-1, 1]')
        return S(P.from_float(math.acos(v)))
    inside = s_and([mkbool(psub(p, pconst(1)), '<='), mkbool(padd(p, pconst(1)), '>=')])
    if not bool(inside):
        raise NotANumber('arccos outside [-1, 1]')
    key = ('acos', pkey(p))
    t = _memo.get(key)
    if t is None:
        zp = z3poly(p)
        pi = z3var(P.PI)

        def d(a, ch, sh):
            return z3.And(a <= pi, a >= 0, ch >= 0, sh >= 0, ch * ch + sh * sh == 1, 2 * ch * ch - 1 == zp,
                          (a == 0) == (sh == 0), (a == pi) == (ch == 0), 4 * sh * sh <= a * a)
        t = _memo[key] = _half_pair_angle(
            'acos', d, lambda e: math.acos(max(-1.0, min(1.0, peval(p, e)))), pvars(p) | {P.PI})
    return S(pvar(t))


# ------------------------------------------------------------------------------------------------ closeness
def z3abs(t):
    return z3.If(t >= 0, t, -t)


def close(a, b, rtol=1e-5, atol=1e-8):
    """np.isclose on scalars"""
    if _is_inf(a) or _is_inf(b):
        return bool(_is_inf(a) and _is_inf(b) and a == b)
    if _is_nan(a) or _is_nan(b):
        return False
    a, b, rtol, atol = S_of(a), S_of(b), S_of(rtol), S_of(atol)
    dre, dim = P.prune(psub(a.re, b.re), 1e-13), P.prune(psub(a.im, b.im), 1e-13)
    if a.numconst() and b.numconst() and rtol.numconst() and atol.numconst():
        return bool(abs(complex(a) - complex(b)) <= float(atol) + float(rtol) * abs(complex(b)))
    if not dre and not dim and _const_nonneg(atol.re) and _const_nonneg(rtol.re):
        return True
    vs = pvars(dre) | pvars(dim) | pvars(b.re) | pvars(b.im) | pvars(rtol.re) | pvars(atol.re)
    if b.im:
        m = _sqrt(padd(pmul(b.re, b.re), pmul(b.im, b.im)), nonneg=True)
        vs |= pvars(m)
        tb = z3poly(m)
    else:
        tb = z3abs(z3poly(b.re)) if not is_const(b.re) else rat(Fraction(abs(const_val(b.re))))
    t = z3poly(atol.re) + z3poly(rtol.re) * tb
    if dim:
        if dre:
            d2 = padd(pmul(dre, dre), pmul(dim, dim))
            c = z3.And(t >= 0, z3poly(d2) <= t * t)
        else:
            z = z3poly(dim)
            c = z3.And(z <= t, -z <= t)
    else:
        z = z3poly(dre)
        c = z3.And(z <= t, -z <= t)
    return SBool(c, vs)


def _const_nonneg(p):
    vs = pvars(p)
    return all(v in (P.R2, P.PI) or v in _nonneg for v in vs) and (not vs and const_val(p) >= 0 or _known_nonneg(p))


def numeric(x, env):
    """float/complex value of a symbolic scalar in a numeric environment"""
    if isinstance(x, S):
        re = peval(x.re, env)
        return re if not x.im else complex(re, peval(x.im, env))
    return x
