"""Sparse multivariate polynomials over Q, in canonical form, with quadratic rewrite rules.

A monomial is a sorted tuple of variable ids (repeated for powers); a polynomial is a dict monomial -> rational.
A rule  v*v -> p  (p a polynomial) is applied on every multiplication: sqrt(2)^2 = 2, sin^2 = 1 - cos^2, sqrt(a)^2 = a.
"""
from fractions import Fraction
import math


class Vars:
    """Registry of variables.  Names are stable across re-executions of a path."""

    def __init__(self):
        self.names = []
        self.ids = {}
        self.is_int = []
        self.rules = {}

    def var(self, name, is_int=False):
        i = self.ids.get(name)
        if i is None:
            i = len(self.names)
            self.ids[name] = i
            self.names.append(name)
            self.is_int.append(is_int)
        return i


VARS = Vars()
R2 = VARS.var('sqrt2')
PI = VARS.var('pi')
VARS.rules[R2] = {(): 2}


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    if a[-1] <= b[0]:
        return a + b
    if b[-1] <= a[0]:
        return b + a
    return tuple(sorted(a + b))


def _reduce_mono(m, c, out):
    """add c*m to out, applying rules"""
    rules = VARS.rules
    prev = -1
    for k, v in enumerate(m):
        if v == prev and v in rules:
            rest = m[:k - 1] + m[k + 1:]
            for m2, c2 in rules[v].items():
                _reduce_mono(mono_mul(rest, m2), c * c2, out)
            return
        prev = v
    n = out.get(m, 0) + c
    if n:
        out[m] = n
    else:
        out.pop(m, None)


def padd(a, b):
    if not a:
        return b
    if not b:
        return a
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + c
        if n:
            r[m] = n
        else:
            del r[m]
    return r


def pneg(a):
    return {m: -c for m, c in a.items()}


def psub(a, b):
    if not b:
        return a
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) - c
        if n:
            r[m] = n
        else:
            del r[m]
    return r


def pscale(a, k):
    if not k:
        return {}
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()}


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and () in a:
        return pscale(b, a[()])
    if len(b) == 1 and () in b:
        return pscale(a, b[()])
    rules = VARS.rules
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mono_mul(m1, m2)
            c = c1 * c2
            if len(m) > 1:
                prev = -1
                hit = False
                for v in m:
                    if v == prev and v in rules:
                        hit = True
                        break
                    prev = v
                if hit:
                    _reduce_mono(m, c, r)
                    continue
            n = r.get(m, 0) + c
            if n:
                r[m] = n
            else:
                r.pop(m, None)
    return r


def pconst(c):
    return {(): c} if c else {}


def pvar(i):
    return {(i,): 1}


def is_const(a):
    return not a or (len(a) == 1 and () in a)


def const_val(a):
    return a.get((), 0)


def pkey(a):
    return frozenset((m, Fraction(c)) for m, c in a.items())


def pvars(a):
    s = set()
    for m in a:
        s.update(m)
    return s


def peval(a, env):
    t = 0.0
    for m, c in a.items():
        x = float(c)
        for v in m:
            x *= env[v]
        t += x
    return t


def prune(a, eps=1e-9):
    """drop terms whose coefficient is numerical noise of float constants"""
    if any(-eps < c < eps for c in a.values()):
        return {m: c for m, c in a.items() if not -eps < c < eps}
    return a


_float_cache = {}


class NonFinite(OverflowError):
    pass


def from_float(x):
    """Exact value a float constant stands for: a short decimal, a small rational, a small rational times sqrt(2),
    or a small rational times pi; otherwise the exact dyadic value of the float."""
    r = _float_cache.get(x)
    if r is None:
        r = _float_cache[x] = _from_float(x)
    return r


def _from_float(x):
    if x != x or x in (math.inf, -math.inf):
        raise NonFinite('non-finite constant in symbolic arithmetic')
    if x == int(x) if abs(x) < 1e18 else False:
        return pconst(int(x))
    ax = abs(x)
    if ax < 1e-13:
        return {}
    s = repr(x)
    digits = s.split('e')[0].replace('.', '').replace('-', '').strip('0')
    if len(digits) <= 11:
        return pconst(_norm(Fraction(s)))
    tol = 4e-14 * max(1.0, ax)
    for scale, mono in ((1.0, ()), (math.sqrt(2.0), (R2,)), (math.pi, (PI,))):
        y = x / scale
        f = Fraction(y).limit_denominator(1024)
        if f and abs(float(f) - y) * scale <= tol:
            return {mono: _norm(f)}
    return pconst(Fraction(x))
