"""scipy stand-ins: the matrix exponential on symbolic matrices."""
import types
from fractions import Fraction
import numpy as np
import scipy.linalg
import z3
from . import poly as P
from .poly import VARS, pkey, pvars, pmul, pneg
from .engine import ENGINE, DEFS, Unsupported, z3poly, z3var
from .scalar import S, S_of, cos_sin, _memo, _fresh, exact_div
from . import snp
from .snp import obj, sym, clean, is_const_array, to_complex, mat_key, fresh_matrix, num_array, symbolic, vec

EXPM = []     # (A, E)


def scale_of(A, B):
    """z with A = z*B for a polynomial (monomial) z, or None.  A, B cleaned object matrices."""
    piv = None
    n = A.shape[0]
    for i, x in enumerate(B.reshape(-1)):
        x = S_of(x)
        if x.re or x.im:
            piv = i
            break
    if piv is None:
        return None
    b = S_of(B.reshape(-1)[piv])
    a = S_of(A.reshape(-1)[piv])
    z = sdiv(a, b)
    if z is None:
        return None
    D = A - B * z
    for x in D.reshape(-1):
        x = S_of(x)
        if P.prune(x.re, 1e-10) or P.prune(x.im, 1e-10):
            return None
    return z


def sdiv(a, b):
    """a / b as a monomial-coefficient complex number, or None"""
    cands = []
    for part in ('re', 'im'):
        bp = getattr(b, part)
        if not bp:
            continue
        f = (lambda u, v: S(u, v)) if part == 're' else (lambda u, v: S(v, pneg(u)))
        u = exact_div(a.re, bp) if a.re else {}
        v = exact_div(a.im, bp) if a.im else {}
        if u is None or v is None:
            continue
        # a = bp*(u + i v); if b = bp (real) then z = u+iv; if b = i*bp then z = (u+iv)/i
        cands.append(f(u, v))
    if b.re and b.im:
        # general: try z real or imaginary
        for za in (exact_div(a.re, b.re),):
            if za is not None:
                cands.append(S(za))
        za = exact_div(a.im, b.re)
        if za is not None:
            cands.append(S({}, za))
    for z in cands:
        d = z * b - a
        d = S_of(d)
        if not P.prune(d.re, 1e-10) and not P.prune(d.im, 1e-10):
            return z
    return None


def factor(A):
    """A = z * M with M a constant matrix, or None"""
    for x in A.reshape(-1):
        x = S_of(x)
        if x.re or x.im:
            break
    else:
        return None
    lead = x.re or x.im
    M = sym(np.empty(A.shape, dtype=object))
    mf = M.reshape(-1)
    for i, y in enumerate(A.reshape(-1)):
        y = S_of(y)
        r = _ratio(y.re, lead)
        m = _ratio(y.im, lead)
        if r is None or m is None:
            return None
        mf[i] = S(P.pconst(r) if not isinstance(r, dict) else r, P.pconst(m) if not isinstance(m, dict) else m)
    return S(lead), M


def _ratio(p, q):
    """rational r (possibly times sqrt2) with p = r*q"""
    if not p:
        return 0
    if len(p) != len(q):
        return None
    m = min(q)
    if m not in p:
        return None
    r = P._norm(Fraction(p[m]) / Fraction(q[m]))
    for k, c in q.items():
        d = p.get(k)
        if d is None or abs(Fraction(d) - r * Fraction(c)) > Fraction(1, 10 ** 10) * max(1, abs(Fraction(c))):
            return None
    return r


def expm(A):
    if not symbolic(A):
        return snp._created(scipy.linalg.expm(np.asarray(A)))
    A = clean(A)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise ValueError('expected a square matrix')
    n = A.shape[0]
    if is_const_array(A):
        E = scipy.linalg.expm(to_complex(A))
        return vec(lambda x: 0 if abs(x) < 1e-14 else x, obj(E))
    # scalar times a constant matrix with M^2 = c*1:  cos / sin form
    f = factor(A)
    if f is not None:
        z, M = f
        M2 = clean(M @ M)
        c = M2[0, 0]
        if is_const_array(M2):
            m2 = to_complex(M2)
            cc = m2[0, 0]
            if np.allclose(m2, cc * np.eye(n), atol=1e-12) and abs(cc.imag) < 1e-12 and cc.real < -1e-12 and not z.im:
                # A = z*w*K with K = M/w, K^2 = -1, w = sqrt(-c)
                w2 = S_of(-cc.real)
                w = w2.sqrt()
                ang = z * w
                co, si = cos_sin(ang.re)
                K = M * (1 / w)
                I = obj(np.eye(n))
                return clean(I * S(co) + K * S(si))
    # a known eigendecomposition
    for H, Sv, V in snp.EIGH:
        if H.shape == A.shape:
            z = scale_of(A, H)
            if z is not None and not z.re:
                D = sym(np.empty(n, dtype=object))
                for i in range(n):
                    D[i] = (z * Sv[i]).exp()
                return (V * np.asarray(D)[None, :]) @ V.conj().T
    return _uf(A)


def _uf(A):
    n = A.shape[0]
    key = ('expm', mat_key(A))
    r = _memo.get(key)
    if r is None:
        nkey = ('expm', mat_key(clean(-A)))
        if nkey in _memo and antiherm(A):
            return _memo[nkey].conj().T
        nm = _fresh('expm', key)
        ids, E = fresh_matrix(nm, (n, n), None)

        def nums(env):
            M = scipy.linalg.expm(num_array(A, env))
            out = []
            for x in M.reshape(-1):
                out += [x.real, x.imag]
            return out
        DEFS.add_numeric(ids, nums)
        DEFS.abstract.update(ids)
        if antiherm(A):
            def lemma():
                out = []
                B = E.conj().T @ E - np.eye(n)
                C = E @ E.conj().T - np.eye(n)
                for x in list(B.reshape(-1)) + list(C.reshape(-1)):
                    x = S_of(x)
                    for p in (x.re, x.im):
                        if p:
                            out.append((z3poly(p) == 0, frozenset(pvars(p))))
                return out
            DEFS.add_lemma(ids, lemma)
        r = _memo[key] = E
        EXPM.append((A, E))
    return r.copy()


def antiherm(A):
    D = clean(A + A.conj().T)
    return all(not S_of(x).re and not S_of(x).im for x in D.reshape(-1))


class LinalgModule(types.ModuleType):
    def __init__(self):
        super().__init__('scipy.linalg')
        self.expm = expm
        self.eigh = snp.eigh
        self.svd = snp.svd
        self.norm = snp.norm
        self.eigvalsh = snp.eigvalsh
        self.svdvals = snp.singular_values

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('scipy.linalg.%s' % n)


def _no_minimize(*a, **k):
    raise Unsupported('scipy.optimize.minimize')


class ScipyModule(types.ModuleType):
    def __init__(self):
        super().__init__('scipy')
        self.linalg = LinalgModule()
        self.optimize = types.ModuleType('scipy.optimize')
        self.optimize.minimize = _no_minimize


SCIPY = ScipyModule()
