"""What a scenario sees in symbolic mode: inputs are symbols, assertions are solver queries."""
from fractions import Fraction
import random
import time
import numpy as np
import z3
from . import poly as P
from .poly import VARS, pvars, psub, pkey, is_const, const_val
from .engine import ENGINE, DEFS, Unsupported, Infeasible, NumEnv, z3poly, z3var, rat
from .scalar import (S, SBool, S_of, as_bool, s_and, s_or, s_not, s_implies, close, declare_angle, mkbool, numeric,
                     arctan2, NotANumber, named)
from . import scalar, snp, sscipy, sqml
from .snp import SNP, sym, obj
from .loader import Program


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    @property
    def raised(self):
        return None if self.exc is None else type(self.exc).__name__


class Failure:
    def __init__(self, label, verdict, inputs, info, abstract=False):
        self.label, self.verdict, self.inputs, self.info = label, verdict, inputs, info
        self.abstract = abstract    # the query mentions uninterpreted functions: `sat` may be spurious


def flat(x):
    """flatten nested results to a list of leaves"""
    if isinstance(x, np.ndarray):
        return [x[()]] if x.ndim == 0 else [y for z in np.asarray(x).reshape(-1) for y in flat(z)]
    if isinstance(x, (list, tuple)):
        return [y for z in x for y in flat(z)]
    if isinstance(x, dict):
        return [y for k in x for y in flat(x[k])]
    return [x]


def shape(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        return ('seq', len(x)) + tuple(shape(y) for y in x)
    if isinstance(x, dict):
        return ('dict', len(x))
    return ()


class SymEnv:
    symbolic = True
    pi = S({(P.PI,): 1})

    def __init__(self, tier='quick', seed=1):
        self.tier = tier
        self.seed = seed
        self.program = Program()
        self.np, self.qml = SNP, sqml.QML
        self.inputs = {}       # name -> descriptor
        self.choices = {}      # name -> index
        self.havoc = []        # [kind, value]
        self.outs = []
        self.failures = []
        self.proved = []
        self.patches = {}
        ENGINE.env = self
        snp.LET[0] = None
        scalar.ABS_LIMIT[0] = 3
        sqml.EXACT[0] = False

    # ---------------------------------------------------------------- code under test
    def mod(self, name):
        return self.program.load('oranssi.' + name)

    @property
    def plt(self):
        return self.program.stub['matplotlib.pyplot']

    def patch_expm(self, fn):
        """replace scipy.linalg.expm as the code under test sees it (before loading modules)"""
        lin = sscipy.LinalgModule()
        lin.expm = fn
        sc = sscipy.ScipyModule()
        sc.linalg = lin
        self.program.stub['scipy'] = sc
        self.program.stub['scipy.linalg'] = lin

    def patch_qml(self, **repl):
        m = sqml.make()
        for k, v in repl.items():
            setattr(m, k, v)
        self.program.stub['pennylane'] = m
        self.qml = m

    def call(self, fn, *a, **k):
        try:
            return Outcome(fn(*a, **k))
        except (Unsupported, Infeasible):
            raise
        except (NotANumber, P.NonFinite) as e:       # floating point would go on with nan or inf
            raise Unsupported('%s (not a finite number)' % e)
        except Exception as e:
            return Outcome(exc=e)

    # ---------------------------------------------------------------- inputs
    def real(self, name, lo=None, hi=None, nonzero=False):
        v = VARS.var(name)
        self.inputs[name] = {'kind': 'real', 'ids': [v], 'lo': lo, 'hi': hi}
        x = S({(v,): 1})
        if lo is not None:
            self.assume(x >= lo)
            if lo >= 0:
                scalar._nonneg.add(v)
        if hi is not None:
            self.assume(x <= hi)
        if nonzero:
            self.assume(x != 0)
        return x

    def angle(self, name, unit=Fraction(1, 2), lo=None, hi=None):
        v = VARS.var(name)
        declare_angle({(v,): 1}, unit)
        return self.real(name, lo, hi)

    def cplx(self, name):
        r, i = VARS.var(name + '.r'), VARS.var(name + '.i')
        self.inputs[name] = {'kind': 'cplx', 'ids': [r, i]}
        return S({(r,): 1}, {(i,): 1})

    def int(self, name, lo, hi):
        v = VARS.var(name, is_int=True)
        self.inputs[name] = {'kind': 'int', 'ids': [v], 'lo': lo, 'hi': hi}
        x = S({(v,): 1})
        self.assume(x >= lo)
        self.assume(x <= hi)
        return x

    def matrix(self, name, n, m=None, kind='free'):
        """kind: free (complex), real, hermitian, unitary.  A unitary is encoded as an arbitrary complex matrix
        (a superset of the unitaries); counterexamples are projected onto unitaries before they are replayed."""
        m = n if m is None else m
        A = np.empty((n, m), dtype=object)
        ids = []
        for i in range(n):
            for j in range(m):
                if kind == 'hermitian' and j < i:
                    A[i, j] = A[j, i].conjugate()
                    continue
                r = VARS.var('%s.%d.%d' % (name, i, j))
                ids.append(r)
                if kind in ('real', 'orthogonal') or (kind == 'hermitian' and i == j):
                    A[i, j] = S({(r,): 1})
                else:
                    q = VARS.var('%s.%d.%di' % (name, i, j))
                    ids.append(q)
                    A[i, j] = S({(r,): 1}, {(q,): 1})
        self.inputs[name] = {'kind': 'real_matrix' if kind == 'real' else kind, 'ids': ids, 'shape': (n, m)}
        return sym(A)

    def unitary2(self, name):
        """every 2x2 unitary, exactly: e^{ig} [[a, -b*], [b, a*]], |a|^2 + |b|^2 = 1"""
        ids, U = snp.param_unitary2(name, None)
        self.inputs[name] = {'kind': 'param_unitary2', 'ids': ids, 'shape': (2, 2)}
        for v in ids[:2]:
            pass
        return U

    def state(self, name, dim):
        A = np.empty(dim, dtype=object)
        ids = []
        for i in range(dim):
            r, q = VARS.var('%s.%d' % (name, i)), VARS.var('%s.%di' % (name, i))
            ids += [r, q]
            A[i] = S({(r,): 1}, {(q,): 1})
        self.inputs[name] = {'kind': 'state', 'ids': ids, 'shape': (dim,)}
        return sym(A)

    def bool(self, name):
        return [False, True][self.choice_index(name, 2)]

    def choice(self, name, options):
        return options[self.choice_index(name, len(options))]

    def choice_index(self, name, n):
        i = ENGINE.choose([(None, ())] * n) if n > 1 else 0
        self.choices[name] = i
        return i

    def havoc_choice(self, what, n):
        i = ENGINE.choose([(None, ())] * n) if n > 1 else 0
        self.havoc.append([what, i])
        return i

    draws = None

    def havoc_real(self, what, shp, lo=None, hi=None):
        if self.draws is not None:
            return SNP.array(self.draws(shp), float) if shp else self.draws(shp)
        k = sum(1 for h in self.havoc if h[0] == what)
        name = '%s#%d' % (what, k)
        self.havoc.append([what, name])
        ids = []
        a = np.empty(shp, dtype=object)
        f = a.reshape(-1)
        for i in range(f.size):
            v = VARS.var('%s.%d' % (name, i))
            ids.append(v)
            f[i] = S({(v,): 1})
            if lo is not None:
                self.assume((f[i] >= lo) & (f[i] <= hi))
        self.inputs[name] = {'kind': 'real_array', 'ids': ids, 'shape': tuple(shp)}
        return sym(a) if shp else f[0]

    # ---------------------------------------------------------------- helpers shared with concrete mode
    def expm(self, A):
        return sscipy.expm(obj(A))

    def const(self, x):
        return x

    def arr(self, x):
        return SNP.array(x, complex)

    def apply(self, psi, M, wires, n):
        """independent embedding: the action of M on the given wires of a vector"""
        return sym(np.array(sqml.apply(list(psi), M, list(wires), n), dtype=object))

    def embed(self, M, wires, n):
        out = np.empty((2 ** n, 2 ** n), dtype=object)
        for c in range(2 ** n):
            e = [0] * 2 ** n
            e[c] = 1
            out[:, c] = sqml.apply(e, M, list(wires), n)
        return sym(out)

    def expect(self, psi, O):
        """<psi|O|psi> (real part)"""
        phi = obj(O) @ obj(psi)
        t = S({})
        for a, b in zip(psi, phi):
            a, b = S_of(a), S_of(b)
            t = t + (a.real * b.real + a.imag * b.imag)
        return t

    def left_factor(self, U, W):
        """the matrix R with U = R W, for a W made of independent symbols that U is linear in"""
        n = W.shape[0]
        R = np.empty((n, n), dtype=object)
        own = {}
        for m in range(n):
            p = S_of(W[m, 0]).re
            if len(p) != 1 or len(next(iter(p))) != 1:
                raise Unsupported('left factor: not a matrix of symbols')
            own[next(iter(p))[0]] = m
        for r in range(n):
            row = [[{}, {}] for _ in range(n)]
            u = S_of(U[r, 0])
            for part, poly in enumerate((u.re, u.im)):
                for mono, c in poly.items():
                    hit = [v for v in mono if v in own]
                    if not hit:
                        continue
                    if len(hit) > 1:
                        raise Unsupported('left factor: not linear')
                    rest = tuple(v for v in mono if v != hit[0])
                    t = row[own[hit[0]]][part]
                    t[rest] = t.get(rest, 0) + c
            for m in range(n):
                R[r, m] = S(row[m][0], row[m][1])
        R = sym(R)
        if self.equal(R @ W, U) is not True:
            raise Unsupported('left factor: not linear')
        return R

    def sqrt(self, x):
        return S_of(x).sqrt()

    def cos(self, x):
        return S_of(x).cos()

    def sin(self, x):
        return S_of(x).sin()

    def atan2(self, y, x):
        return arctan2(S_of(y), S_of(x))

    def abs(self, x):
        return abs(S_of(x))

    def all(self, cs):
        return s_and(list(cs))

    def any(self, cs):
        return s_or(list(cs))

    def not_(self, c):
        return s_not(c)

    def implies(self, a, b):
        return s_implies(a, b)

    def close(self, a, b, rtol=1e-5, atol=1e-8):
        return close(a, b, rtol, atol)

    def equal(self, a, b):
        """condition: a equals b (leaf by leaf)"""
        fa, fb = flat(a), flat(b)
        if len(fa) != len(fb):
            return False
        cs = []
        for x, y in zip(fa, fb):
            x, y = S_of(x), S_of(y)
            for p in (P.prune(psub(x.re, y.re)), P.prune(psub(x.im, y.im))):
                cs.append(mkbool(p, '=='))
        return s_and(cs)

    # ---------------------------------------------------------------- assumptions and assertions
    def assume(self, c):
        c = as_bool(c)
        if c is True:
            return
        if c is False:
            raise Infeasible()
        ENGINE.assume(c.c, c.vs)

    def out(self, label, x):
        self.outs.append((label, x))

    def eq(self, label, a, b, lemmas=False, rel=None):
        fa, fb = flat(a), flat(b)
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape != b.shape or len(fa) != len(fb):
            return self._fail_now(label, 'shape %s vs %s' % (shape(a), shape(b)))
        conds, margin, vs = [], [], set()
        trivial = []
        for x, y in zip(fa, fb):
            if not _isnum(x) or not _isnum(y):
                if isinstance(x, SBool) or isinstance(y, SBool):
                    t = as_bool(x) if isinstance(x, SBool) else y
                    c = s_not(x == y)
                    if c is True:
                        return self._fail_now(label, '%r != %r' % (x, y))
                    if c is not False:
                        conds.append(c.c)
                        margin.append(c.c)
                        vs |= c.vs
                    continue
                if x != y:
                    return self._fail_now(label, '%r != %r' % (x, y))
                continue
            if isinstance(x, float) and isinstance(y, float) and (np.isnan(x) or np.isinf(x)):
                if x != y:
                    return self._fail_now(label, '%r != %r' % (x, y))
                continue
            x, y = S_of(x), S_of(y)
            for p, q in ((x.re, y.re), (x.im, y.im)):
                if p is q:
                    continue
                d = P.prune(psub(p, q))
                if d:
                    if is_const(d):
                        if abs(const_val(d)) > 1e-7:
                            conds.append(z3.BoolVal(True))
                            margin.append(z3.BoolVal(True))
                        continue
                    t = z3poly(d)
                    conds.append(t != 0)
                    margin.append(z3.Or(t > rat(Fraction(1, 20)), t < rat(Fraction(-1, 20))))
                    vs |= pvars(d)
                elif len(trivial) < 16 and len(p) <= 120 and p == q and not is_const(p):
                    trivial.append(z3poly(p) != z3poly(q))
        if not conds:
            # both sides have the same normal form; z3 confirms on the un-normalised sides
            conds = trivial or [z3.BoolVal(False)]
            margin = []
        self._prove(label, z3.Or(conds), vs, z3.Or(margin) if margin else None, lemmas)

    def ok(self, label, c, lemmas=False, strict=None):
        """strict: a stronger negation (with a margin) preferred for counterexamples"""
        c = as_bool(c)
        if c is True:
            self._prove(label, z3.BoolVal(False), set(), None, False)
            return
        if c is False:
            return self._fail_now(label, 'condition is false')
        m = None
        if strict is not None:
            strict = as_bool(strict)
            if isinstance(strict, SBool):
                m = strict.c
        self._prove(label, z3.Not(c.c), c.vs, m, lemmas)

    def le(self, label, a, b, lemmas=False):
        a, b = S_of(a), S_of(b)
        d = P.prune(psub(a.re, b.re))
        if P.prune(a.im) or P.prune(b.im):
            return self._fail_now(label, 'ordering of complex values')
        if is_const(d):
            return self.ok(label, const_val(d) <= Fraction(1, 10 ** 9))
        t = z3poly(d)
        self._prove(label, t > 0, pvars(d), t > rat(Fraction(1, 20)), lemmas)

    def near(self, label, a, b, tol):
        """|a - b| <= tol, leaf by leaf"""
        fa, fb = flat(a), flat(b)
        if len(fa) != len(fb):
            return self._fail_now(label, 'shape %s vs %s' % (shape(a), shape(b)))
        cs = []
        for x, y in zip(fa, fb):
            d = S_of(x) - S_of(y)
            for p in (P.prune(d.re), P.prune(d.im)):
                if p:
                    cs.append(mkbool(psub(p, P.from_float(tol)), '<='))
                    cs.append(mkbool(P.padd(p, P.from_float(tol)), '>='))
        self.ok(label, s_and(cs))

    def exact_gradient(self):
        """PennyLane's gradients are exact derivatives instead of an uninterpreted function"""
        sqml.EXACT[0] = True

    def linear_abs(self):
        """moduli of products are moduli of symbols, so that comparisons of them are linear"""
        scalar.ABS_LIMIT[0] = 0

    def name(self, x):
        """a symbol for a large value"""
        return named(x, 1)

    def gt(self, a, b):
        """strictly greater; in replays only by a clear margin"""
        return S_of(a) > b

    def let_limit(self, n):
        """products of matrices name entries of more than n terms (keeps long runs small)"""
        snp.LET[0] = n

    def fail(self, label, info=''):
        self._fail_now(label, info)

    def _fail_now(self, label, info):
        # the assertion is false on this path whatever the inputs: the path's own feasibility decides
        self._prove(label, z3.BoolVal(True), set(), None, False, info)

    def _prove(self, label, neg, vs, margin, lemmas, info=''):
        if getattr(self, 'stop_after_failure', True) and len(self.failures) >= 6:
            return
        simple = z3.is_true(neg)
        r, model = None, None
        if vs and not simple:
            # fewer constraints first: the path condition alone, then the definitions without the large polynomials
            r0, _ = ENGINE.check([neg], vs, 3000, defs=False, branch=True)
            if r0 != 'unsat' and DEFS.lets:
                r0, _ = ENGINE.check([neg], vs, 8000, lets=False, branch=True)
            if r0 == 'unsat':
                r = 'unsat'
                ENGINE.stats.queries += 1
                ENGINE.stats.unsat += 1
        if r is None:
            r, model = ENGINE.check([neg], vs, ENGINE.query_timeout, lemmas=lemmas, all_pc=simple)
        abstract = bool(ENGINE.last_cone & DEFS.abstract)
        if r == 'unknown' and not lemmas:
            r, model = ENGINE.check([neg], vs, ENGINE.query_timeout, lemmas=True)
        if r == 'sat' and not simple and ENGINE.pc:
            # the whole path condition, not only the part that mentions the same variables
            r2, m2 = ENGINE.check([neg], vs, ENGINE.query_timeout, all_pc=True, branch=True)
            if r2 == 'unsat':
                r = 'unsat'
                ENGINE.stats.sat -= 1
                ENGINE.stats.unsat += 1
            elif r2 == 'unknown':
                r = 'unknown'
                ENGINE.stats.sat -= 1
                ENGINE.stats.unknown += 1
            else:
                model = m2
        if r == 'unsat':
            self.proved.append(label)
            return
        if r in ('sat', 'unknown'):
            # prefer a model that fixes the whole path and violates the assertion by a margin
            best = None
            for cond, box in ((margin, 3), (margin, 50), (neg, 3), (neg, None)):
                if cond is None:
                    continue
                r2, m2 = ENGINE.check([cond], vs, 5000, lemmas=False, all_pc=True, box=box, branch=True)
                if r2 == 'sat':
                    best = m2
                    break
            model = best or model
        self.failures.append(Failure(label, r, self.inputs_from_model(model), info, abstract))

    # ---------------------------------------------------------------- concrete inputs
    def inputs_from_model(self, model, rnd=None):
        vals = {}
        if model is not None:
            for name, d in self.inputs.items():
                for v in d['ids']:
                    vals[v] = _model_value(model, v)
        return self.realize(vals, rnd)

    def realize(self, vals, rnd=None, scale=1.0):
        """JSON inputs; unassigned symbols get generic values (unconstrained entries times scale)"""
        rnd = rnd or random.Random(self.seed)
        out = {}
        for name, d in self.inputs.items():
            x = []
            for v in d['ids']:
                t = vals.get(v)
                if t is None:
                    t = _generic(d, rnd)
                    if scale != 1.0 and d['kind'] in ('free', 'cplx', 'hermitian', 'real_matrix', 'real_array'):
                        t = t * scale
                x.append(t)
            out[name] = realize_one(d, x)
        return {'inputs': out, 'choices': dict(self.choices), 'havoc': list(self.havoc)}

    def structured(self, base, mode, rnd):
        """candidate inputs with special matrices (near the identity, almost real, permutations, all alike, ...); numbers are
        those of the candidate `base`.  Only what the real code does with them counts."""
        out = dict(base['inputs'])
        kinds = ('unitary', 'orthogonal', 'param_unitary2', 'hermitian', 'state', 'free')
        first = {}
        for name, d in self.inputs.items():
            if d['kind'] not in kinds:
                continue
            key = (d['kind'] in ('unitary', 'param_unitary2'), d['kind'], d['shape'])
            if mode.startswith('same') and key in first:
                A = first[key]
                if mode == 'same~':
                    A = near(A, 3e-3, rnd) if d['kind'] in ('unitary', 'param_unitary2', 'orthogonal') else A
            else:
                A = special(d, mode, rnd)
            if A is None:
                continue
            first.setdefault(key, A)
            A = np.asarray(A, dtype=complex)
            out[name] = [[[t.real, t.imag] for t in row] for row in A.tolist()] if A.ndim == 2 else \
                [[t.real, t.imag] for t in A.tolist()]
        return dict(base, inputs=out)

    def var_values(self, inp):
        """NumEnv from JSON inputs"""
        env = NumEnv()
        for name, d in self.inputs.items():
            val = inp['inputs'][name]
            for v, t in zip(d['ids'], unrealize(d, val)):
                env[v] = t
        return env


def _isnum(x):
    return isinstance(x, (S, int, float, complex, np.number, Fraction)) and not isinstance(x, bool)


def _generic(d, rnd):
    k = d['kind']
    if k == 'int':
        return rnd.randint(d['lo'], d['hi'])
    lo, hi = d.get('lo'), d.get('hi')
    lo = -1.5 if lo is None else float(lo)
    hi = max(1.5, lo + 1.5) if hi is None else float(hi)
    if lo < -1.4 and d.get('hi') is not None:
        lo = max(lo, hi - 6)
    return round(rnd.uniform(lo, hi), 3)


STRUCTURED = ['near-1e-4', 'near-3e-3', 'near-3e-2', 'identity', 'almost-real', 'real', 'permutation', 'permutation~', 'phases',
              'hadamard~', 'same', 'same~']


def near(A, eps, rnd):
    """A times a unitary close to the identity"""
    n = len(A)
    real = not np.iscomplexobj(A)
    G = np.array([[complex(rnd.uniform(-1, 1), 0 if real else rnd.uniform(-1, 1)) for _ in range(n)] for _ in range(n)])
    G = G - G.conj().T
    B = np.eye(n) + eps * G
    B = B.real if real else B
    return project_unitary(B, real) @ A


def special(d, mode, rnd):
    k, n = d['kind'], d['shape'][0]
    if k == 'state':
        return None
    if k == 'free' and (len(d['shape']) != 2 or d['shape'][0] != d['shape'][1]):
        return None
    real = k == 'orthogonal'
    one = np.eye(n) if real else np.eye(n, dtype=complex)
    if k in ('hermitian', 'free'):
        M = np.array([[complex(rnd.uniform(-1, 1), rnd.uniform(-1, 1)) for _ in range(n)] for _ in range(n)])
        M = M if k == 'free' else (M + M.conj().T) / 2
        if mode.startswith('near'):
            return one + float(mode[5:]) * M
        if mode == 'identity':
            return one
        if mode in ('real', 'almost-real'):
            return M.real + (3e-3j * M.imag if mode == 'almost-real' else 0)
        if mode in ('permutation', 'phases'):
            return np.diag([rnd.choice([1., -1., 0.5, 2.]) for _ in range(n)])
        return M
    if mode.startswith('near'):
        return near(one, float(mode[5:]), rnd)
    if mode == 'identity':
        return one
    if mode in ('real', 'almost-real', 'same', 'same~'):
        M = np.array([[rnd.uniform(-1, 1) for _ in range(n)] for _ in range(n)])
        if mode.startswith('same') and not real:
            M = M + 1j * np.array([[rnd.uniform(-1, 1) for _ in range(n)] for _ in range(n)])
        U = project_unitary(M, not np.iscomplexobj(M))
        return near(U.astype(complex), 2e-3, rnd) if mode == 'almost-real' and not real else U
    if mode.startswith('permutation'):
        p = list(range(n))
        rnd.shuffle(p)
        return near(one[p], 3e-3, rnd) if mode.endswith('~') else one[p]
    if mode == 'phases':
        return one if real else np.diag([np.exp(1j * rnd.uniform(-3, 3)) for _ in range(n)])
    if mode == 'hadamard~':
        H = np.array([[(-1.0) ** bin(i & j).count('1') for j in range(n)] for i in range(n)]) / n ** 0.5
        return near(H if real else H.astype(complex), 3e-3, rnd) if n & (n - 1) == 0 else None
    return None


def realize_one(d, x):
    k = d['kind']
    if k in ('real',):
        return x[0]
    if k == 'int':
        return int(round(x[0]))
    if k == 'cplx':
        return x
    if k in ('real_array', 'real'):
        return x
    if k in ('real_matrix', 'orthogonal'):
        A = np.array(x, dtype=float).reshape(d['shape'])
        if k == 'orthogonal':
            A = project_unitary(A, real=True)
        return [[[float(t), 0.0] for t in row] for row in A]
    if k in ('free', 'unitary'):
        n, m = d['shape']
        A = np.array([complex(x[2 * i], x[2 * i + 1]) for i in range(n * m)]).reshape(n, m)
        if k == 'unitary':
            A = project_unitary(A)
        return [[[t.real, t.imag] for t in row] for row in A.tolist()]
    if k == 'param_unitary2':
        c, s = x[0], x[1]
        r = (c * c + s * s) ** 0.5 or 1.0
        if r == 1.0 and not c and not s:
            c = 1.0
        c, s = c / r, s / r
        q = sum(t * t for t in x[2:]) ** 0.5
        ar, ai, br, bi = [t / q for t in x[2:]] if q else (1.0, 0.0, 0.0, 0.0)
        g, a, b = complex(c, s), complex(ar, ai), complex(br, bi)
        A = [[g * a, -g * b.conjugate()], [g * b, g * a.conjugate()]]
        return [[[t.real, t.imag] for t in row] for row in A]
    if k == 'state':
        v = np.array([complex(x[2 * i], x[2 * i + 1]) for i in range(len(x) // 2)])
        nrm = np.linalg.norm(v)
        v = v / nrm if nrm > 1e-9 else np.eye(len(v))[0]
        return [[complex(t).real, complex(t).imag] for t in v]
    if k == 'hermitian':
        n, m = d['shape']
        A = np.zeros((n, n), dtype=complex)
        it = iter(x)
        for i in range(n):
            for j in range(i, n):
                if i == j:
                    A[i, i] = next(it)
                else:
                    A[i, j] = complex(next(it), next(it))
                    A[j, i] = A[i, j].conjugate()
        return [[[t.real, t.imag] for t in row] for row in A.tolist()]
    raise Unsupported(k)


def project_unitary(A, real=False):
    n = A.shape[0]
    for eps in (0, 0.1, 0.37):
        B = A + eps * (np.eye(n) + (0.3 if real else 0.3j) * np.ones((n, n)))
        u, s, v = np.linalg.svd(B)
        if s[-1] > 1e-6 * max(1.0, s[0]):
            return u @ v
    return np.eye(n) if real else np.eye(n, dtype=complex)


def unrealize(d, val):
    k = d['kind']
    if k in ('real', 'int'):
        return [val]
    if k in ('cplx', 'real_array'):
        return list(val)
    if k == 'state':
        return [t for p in val for t in p]
    if k in ('real_matrix', 'orthogonal'):
        return [p[0] for row in val for p in row]
    if k in ('free', 'unitary'):
        return [t for row in val for p in row for t in p]
    if k == 'param_unitary2':
        M = np.array([[complex(*p) for p in row] for row in val])
        ph = np.sqrt(np.linalg.det(M))
        A, B = M[0, 0] / ph, M[1, 0] / ph
        return [ph.real, ph.imag, A.real, A.imag, B.real, B.imag]
    if k == 'hermitian':
        out = []
        n = d['shape'][0]
        for i in range(n):
            for j in range(i, n):
                out += [val[i][i][0]] if i == j else list(val[i][j])
        return out
    raise Unsupported(k)


def _model_value(model, v):
    t = model.eval(z3var(v), model_completion=False)
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return float(t.as_fraction())
    if z3.is_algebraic_value(t):
        return float(t.approx(20).as_fraction())
    # unconstrained
    return None


# ------------------------------------------------------------------------------------------------ numeric evaluation
def z3num(e, env, cache):
    """value of a z3 term/formula under numeric values of the variables (floats)"""
    i = e.get_id()
    if i in cache:
        return cache[i]
    k = e.decl().kind()
    ch = e.children()
    if z3.is_rational_value(e):
        r = float(e.as_fraction())
    elif z3.is_int_value(e):
        r = e.as_long()
    elif z3.is_true(e):
        r = True
    elif z3.is_false(e):
        r = False
    elif k == z3.Z3_OP_UNINTERPRETED and not ch:
        r = env[VARS.ids[e.decl().name()]]
    elif k == z3.Z3_OP_TO_REAL:
        r = z3num(ch[0], env, cache)
    else:
        v = [z3num(c, env, cache) for c in ch]
        if k == z3.Z3_OP_ADD:
            r = sum(v)
        elif k == z3.Z3_OP_MUL:
            r = 1
            for t in v:
                r = r * t
        elif k == z3.Z3_OP_SUB:
            r = v[0] - sum(v[1:])
        elif k == z3.Z3_OP_UMINUS:
            r = -v[0]
        elif k == z3.Z3_OP_AND:
            r = all(v)
        elif k == z3.Z3_OP_OR:
            r = any(v)
        elif k == z3.Z3_OP_NOT:
            r = not v[0]
        elif k == z3.Z3_OP_XOR:
            r = v[0] != v[1]
        elif k == z3.Z3_OP_IMPLIES:
            r = (not v[0]) or v[1]
        elif k == z3.Z3_OP_ITE:
            r = v[1] if v[0] else v[2]
        elif k == z3.Z3_OP_LE:
            r = v[0] <= v[1] + 1e-9
        elif k == z3.Z3_OP_GE:
            r = v[0] >= v[1] - 1e-9
        elif k == z3.Z3_OP_LT:
            r = v[0] < v[1] - 1e-9
        elif k == z3.Z3_OP_GT:
            r = v[0] > v[1] + 1e-9
        elif k == z3.Z3_OP_EQ:
            r = (v[0] == v[1]) if isinstance(v[0], bool) else abs(v[0] - v[1]) < 1e-9
        elif k == z3.Z3_OP_DISTINCT:
            r = abs(v[0] - v[1]) >= 1e-9
        else:
            raise Unsupported('z3 operator %s' % e.decl())
    cache[i] = r
    return r


def pc_holds(env):
    cache = {}
    for c, _ in ENGINE.pc:
        try:
            if not z3num(c, env, cache):
                return False
        except (KeyError, OverflowError, ZeroDivisionError):
            return False
    return True


def num_tree(x, env):
    """JSON-able numeric value of a nested result"""
    if isinstance(x, S):
        v = numeric(x, env)
        return [v.real, v.imag] if isinstance(v, complex) else [float(v), 0.0]
    if isinstance(x, SBool):
        return bool(z3num(x.c, env, {}))
    if isinstance(x, np.ndarray):
        return [num_tree(y, env) for y in x] if x.ndim else num_tree(x[()], env)
    if isinstance(x, (list, tuple)):
        return [num_tree(y, env) for y in x]
    if isinstance(x, dict):
        return [[str(k), num_tree(v, env)] for k, v in x.items()]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, complex, np.number)):
        v = complex(x)
        return [v.real, v.imag]
    return str(x)
