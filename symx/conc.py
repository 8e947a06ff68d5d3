"""Concrete mode: the same scenarios on the real code with real numpy / scipy / PennyLane (run under /opt/venv's
interpreter).  Reads jobs (JSON) from a file, writes results."""
import contextlib
import importlib
import io
import json
import math
import os
import random
import sys
import traceback
import warnings
import numpy as np

TOL = 1e-7


class AssumptionFailed(BaseException):
    pass


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    @property
    def raised(self):
        return None if self.exc is None else type(self.exc).__name__


def flat(x):
    if isinstance(x, np.ndarray):
        x = np.asarray(x)      # PennyLane tensors of dimension 0 stay arrays when indexed
        return [x[()]] if x.ndim == 0 else [y for z in x.reshape(-1) for y in flat(z)]
    if isinstance(x, (list, tuple)):
        return [y for z in x for y in flat(z)]
    if isinstance(x, dict):
        return [y for k in x for y in flat(x[k])]
    return [x]


def _isnum(x):
    return isinstance(x, (int, float, complex, np.number)) and not isinstance(x, (bool, np.bool_))


_REAL = {}


class ConcEnv:
    symbolic = False
    pi = math.pi

    def __init__(self, job, tier='quick'):
        self.tier = tier
        self.job = job
        self.np = np
        import pennylane as qml
        self.qml = qml
        import scipy.linalg
        if not _REAL:
            _REAL.update(expm=scipy.linalg.expm, choice=random.choice, randint=random.randint,
                         randn=np.random.randn, shuffle=random.shuffle,
                         qml={k: getattr(qml, k) for k in ('QNode', 'ExpvalCost', 'GradientDescentOptimizer',
                                                           'Hamiltonian')})
        scipy.linalg.expm = _REAL['expm']
        for k, v in _REAL['qml'].items():
            setattr(qml, k, v)
        self.havoc = list(job.get('havoc', []))
        self.fallback = random.Random(job.get('fallback_seed', 1))
        random.choice = self._choice
        random.randint = lambda a, b: a + self.havoc_choice('randint', b - a + 1)
        np.random.randn = lambda *shp: self.havoc_real('randn', shp)
        np.random.standard_normal = lambda size=None: self.havoc_real('randn', _shp(size))
        np.random.normal = lambda loc=0.0, scale=1.0, size=None: loc + scale * self.havoc_real('randn', _shp(size))
        for m in [m for m in sys.modules if m == 'oranssi' or m.startswith('oranssi.')]:
            del sys.modules[m]
        self.fails = []
        self.checked = []
        self.outs = []

    @property
    def plt(self):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        return plt

    def mod(self, name):
        return importlib.import_module('oranssi.' + name)

    def patch_expm(self, fn):
        import scipy.linalg
        scipy.linalg.expm = fn

    def patch_qml(self, **repl):
        for k, v in repl.items():
            setattr(self.qml, k, v)

    def call(self, fn, *a, **k):
        try:
            return Outcome(fn(*a, **k))
        except Exception as e:
            return Outcome(exc=e)

    def _choice(self, seq):
        if not len(seq):
            raise IndexError('Cannot choose from an empty sequence')
        return seq[self.havoc_choice('choice', len(seq))]

    def havoc_choice(self, what, n):
        for i, h in enumerate(self.havoc):
            if h[0] == what:
                del self.havoc[i]
                return h[1] % n
        return self.fallback.randrange(n)

    draws = None

    def havoc_real(self, what, shp, lo=None, hi=None):
        if self.draws is not None:
            return np.array(self.draws(shp), dtype=float)
        for i, h in enumerate(self.havoc):
            if h[0] == what:
                del self.havoc[i]
                v = self.job['inputs'].get(h[1])
                if v is not None:
                    return np.array(v, dtype=float).reshape(shp)
        return np.array([self.fallback.gauss(0, 1) for _ in range(int(np.prod(shp)))]).reshape(shp)

    # ---------------------------------------------------------------- inputs
    def _in(self, name, gen):
        v = self.job['inputs'].get(name)
        return gen() if v is None else v     # inputs the symbolic run did not reach

    def _u(self, lo=-1.5, hi=1.5):
        return round(self.fallback.uniform(lo, hi), 3)

    def _cm(self, *shp):
        return np.array([self._u() + 1j * self._u() for _ in range(int(np.prod(shp)))]).reshape(shp)

    def real(self, name, lo=None, hi=None, nonzero=False):
        x = float(self._in(name, lambda: self._u(-1.5 if lo is None else float(lo), max(
            1.5, -1.5 if lo is None else float(lo) + 1.5) if hi is None else float(hi))))
        if lo is not None:
            self.assume(x >= lo - 1e-12)
            x = max(x, float(lo))
        if hi is not None:
            self.assume(x <= hi + 1e-12)
            x = min(x, float(hi))
        if nonzero:
            self.assume(x != 0)
        return x

    def angle(self, name, unit=None, lo=None, hi=None):
        return self.real(name, lo, hi)

    def cplx(self, name):
        return complex(*self._in(name, lambda: [self._u(), self._u()]))

    def int(self, name, lo, hi):
        return int(self._in(name, lambda: self.fallback.randint(lo, hi)))

    def matrix(self, name, n, m=None, kind='free'):
        m = n if m is None else m
        v = self._in(name, lambda: None)
        if v is None:
            A = self._cm(n, m)
            return {'real': lambda: A.real, 'orthogonal': lambda: np.linalg.qr(A.real)[0], 'hermitian': lambda: (A + A.conj().T) / 2,
                    'unitary': lambda: np.linalg.qr(A)[0]}.get(kind, lambda: A)()
        if kind in ('real', 'orthogonal'):
            return np.array([[p[0] for p in row] for row in v], dtype=float)
        return np.array([[complex(*p) for p in row] for row in v])

    def unitary2(self, name):
        return self.matrix(name, 2, kind='unitary')

    def state(self, name, dim):
        return self._state(self._in(name, lambda: None), dim)

    def _state(self, v, dim):
        if v is None:
            v = self._cm(dim)
            return v / np.linalg.norm(v)
        return np.array([complex(*p) for p in v])

    def bool(self, name):
        return [False, True][self.choice_index(name, 2)]

    def choice(self, name, options):
        return options[self.choice_index(name, len(options))]

    def choice_index(self, name, n):
        i = self.job['choices'].get(name)
        return self.fallback.randrange(n) if i is None else i

    # ---------------------------------------------------------------- helpers
    def expm(self, A):
        return _REAL['expm'](np.array(A, dtype=complex))

    def const(self, x):
        return x

    def arr(self, x):
        return np.array(x, complex)

    def apply(self, psi, M, wires, n):
        return self.embed(M, wires, n) @ psi

    def embed(self, M, wires, n):
        k = len(wires)
        sh = [n - 1 - w for w in wires]
        N = 2 ** n
        out = np.zeros((N, N), dtype=complex)
        for r in range(N):
            for c in range(2 ** k):
                row, src = 0, r
                for q, s in enumerate(sh):
                    row = 2 * row + ((r >> s) & 1)
                    bit = (c >> (k - 1 - q)) & 1
                    src = (src & ~(1 << s)) | (bit << s)
                out[r, src] += M[row][c]
        return out

    def expect(self, psi, O):
        psi = np.asarray(psi)
        return float((psi.conj() @ (np.asarray(O) @ psi)).real)

    def left_factor(self, U, W):
        return np.asarray(U) @ np.linalg.inv(np.asarray(W))

    def sqrt(self, x):
        return math.sqrt(max(0.0, float(np.real(x))))

    def cos(self, x):
        return math.cos(x)

    def sin(self, x):
        return math.sin(x)

    def atan2(self, y, x):
        return math.atan2(y, x)

    def abs(self, x):
        return abs(x)

    def all(self, cs):
        return all(bool(c) for c in cs)

    def any(self, cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def close(self, a, b, rtol=1e-5, atol=1e-8):
        return bool(np.isclose(a, b, rtol=rtol, atol=atol))

    def equal(self, a, b):
        fa, fb = flat(a), flat(b)
        return len(fa) == len(fb) and all(self._same(x, y) for x, y in zip(fa, fb))

    def _same(self, x, y):
        if _isnum(x) and _isnum(y):
            d = abs(complex(x) - complex(y))
            if d != d:
                return False
            if d == 0:
                return True
            return d <= TOL * (1 + max(abs(complex(x)), abs(complex(y))))
        return bool(x == y)

    # ---------------------------------------------------------------- assumptions and assertions
    def assume(self, c):
        if not bool(c):
            raise AssumptionFailed()

    def out(self, label, x):
        self.outs.append((label, tree(x)))

    def eq(self, label, a, b, lemmas=False, rel=None):
        fa, fb = flat(a), flat(b)
        self.checked.append(label)
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape != b.shape or len(fa) != len(fb):
            self.fails.append((label, 'shapes differ'))
            return
        for i, (x, y) in enumerate(zip(fa, fb)):
            if not self._same(x, y):
                self.fails.append((label, 'entry %d: got %r, expected %r' % (i, x, y)))
                return

    def ok(self, label, c, lemmas=False, strict=None):
        self.checked.append(label)
        if not bool(c):
            self.fails.append((label, 'false'))

    def le(self, label, a, b, lemmas=False):
        self.checked.append(label)
        a, b = complex(a).real, complex(b).real
        if not a <= b + TOL * (1 + max(abs(a), abs(b))):
            self.fails.append((label, '%r > %r' % (a, b)))

    def near(self, label, a, b, tol):
        fa, fb = flat(a), flat(b)
        self.checked.append(label)
        if len(fa) != len(fb):
            self.fails.append((label, 'shapes differ'))
            return
        for i, (x, y) in enumerate(zip(fa, fb)):
            d = complex(x) - complex(y)
            t = tol + 1e-10 * (1 + abs(complex(y)))
            if not (abs(d.real) <= t and abs(d.imag) <= t):
                self.fails.append((label, 'entry %d: got %r, expected %r' % (i, x, y)))
                return

    def gt(self, a, b):
        return float(np.real(a)) > float(np.real(b)) + 1e-6

    def let_limit(self, n):
        pass

    def exact_gradient(self):
        pass

    def linear_abs(self):
        pass

    def name(self, x):
        return x

    def fail(self, label, info=''):
        self.checked.append(label)
        self.fails.append((label, info))


def _shp(size):
    return () if size is None else tuple(size) if isinstance(size, (tuple, list)) else (size,)


def tree(x):
    if isinstance(x, np.ndarray):
        x = np.asarray(x)
        return [tree(y) for y in x] if x.ndim else tree(x[()])
    if isinstance(x, (list, tuple)):
        return [tree(y) for y in x]
    if isinstance(x, dict):
        return [[str(k), tree(v)] for k, v in x.items()]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, complex, np.number)):
        v = complex(x)
        return [v.real, v.imag]
    return str(x)


def run_job(job):
    h = importlib.import_module('harness.' + job['harness'])
    fn = kw = None
    for name, f, k in h.scenarios(job['tier']):
        if name == job['scenario']:
            fn, kw = f, k
    env = ConcEnv(job, job['tier'])
    res = {'id': job['id']}
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            fn(env, **kw)
        res['status'] = 'fail' if env.fails else 'pass'
    except AssumptionFailed:
        res['status'] = 'fail' if env.fails else 'assume'
    except Exception as e:
        res['traceback'] = traceback.format_exc(limit=-12)
        repo = os.environ.get('PYTHONPATH', '/repo') + os.sep
        if env.fails:
            res['status'] = 'fail'
        elif any(f.filename.startswith(repo) for f in traceback.extract_tb(e.__traceback__)):
            env.fails.append(('exception', '%s: %s' % (type(e).__name__, e)))
            res['status'] = 'fail'
        else:
            res['status'] = 'error'    # the scenario itself, not the code under test
    res['fails'] = [list(f) for f in env.fails]
    res['checked'] = len(env.checked)
    res['outs'] = env.outs
    return res


def main():
    warnings.simplefilter('ignore')
    with open(sys.argv[1]) as f:
        jobs = json.load(f)
    out = []
    stop = set()
    for j in jobs:
        if j.get('group') in stop and j.get('group') is not None:
            continue
        r = run_job(j)
        out.append(r)
        if r['status'] == 'fail' and j.get('stop_on_fail'):
            stop.add(j.get('group'))
        with open(sys.argv[2], 'w') as f:
            json.dump(out, f)
    with open(sys.argv[2], 'w') as f:
        json.dump(out, f)


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    main()
