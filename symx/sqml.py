"""A model of the part of PennyLane 0.15 the repository calls, on symbolic scalars.

Operators queue on the active tape; a QNode runs the tape on |0...0> (wire 0 is the most significant bit) and returns
the state or a sum of expectation values.  The model shares no code with the repository."""
import itertools
import types
from fractions import Fraction
import numpy as np
from . import poly as P
from .poly import VARS, pkey, pvars, peval
from .engine import ENGINE, DEFS, Unsupported
from .scalar import S, S_of, cos_sin, _memo, _fresh, named, declare_angle, pderiv, psubst, PAIRS
from . import snp
from .snp import obj, sym, symbolic, SymArray, vec

_TAPES = []


class Wires:
    def __init__(self, w):
        if isinstance(w, Wires):
            w = w.labels
        elif isinstance(w, (int, np.integer, str)):
            w = (w,)
        w = tuple(int(x) if isinstance(x, (np.integer, S)) else x for x in w)
        if len(set(w)) != len(w):
            raise ValueError('Wires must be unique; got %s.' % (w,))
        self.labels = w

    def __getitem__(self, i):
        return Wires(self.labels[i]) if isinstance(i, slice) else self.labels[i]

    def __len__(self):
        return len(self.labels)

    def __iter__(self):
        return iter(self.labels)

    def __contains__(self, x):
        return x in self.labels

    def __eq__(self, o):
        return self.labels == (o.labels if isinstance(o, Wires) else o)

    def __hash__(self):
        return hash(self.labels)

    def __array__(self, *a, **k):
        return np.array(self.labels)

    def tolist(self):
        return list(self.labels)

    def index(self, w):
        return self.labels.index(w)

    def toarray(self):
        return np.array(self.labels)

    def __repr__(self):
        return '<Wires = %s>' % (list(self.labels),)


class ReturnType:
    def __init__(self, name):
        self.name = name
        self.value = name.lower()

    def __repr__(self):
        return self.value


STATE, EXPVAL, VARIANCE, PROBS = (ReturnType(n) for n in ('State', 'Expectation', 'Variance', 'Probability'))


class Measurement:
    def __init__(self, rt, obs=None):
        self.return_type = rt
        self.obs = obs
        if _TAPES:
            if obs is not None:
                _TAPES[-1].owned(obs)
            _TAPES[-1].measurements.append(self)


class Operator:
    num_params = 0
    prep = False

    def __init__(self, *params, wires=None, do_queue=True):
        if wires is None:
            if len(params) > self.num_params:
                params, wires = params[:self.num_params], params[self.num_params]
            else:
                raise ValueError('Must specify the wires that %s acts on' % type(self).__name__)
        self.data = list(params)
        self.wires = Wires(wires)
        self.name = type(self).__name__
        if _TAPES and do_queue:
            _TAPES[-1].queue(self)

    @property
    def parameters(self):
        return list(self.data)

    @property
    def num_wires(self):
        return len(self.wires)

    inverse = False

    @property
    def matrix(self):
        m = self._matrix(*self.data)
        return obj(m).conj().T if self.inverse else m

    @classmethod
    def _matrix(cls, *p):
        raise NotImplementedError

    def inv(self):
        self.inverse = not self.inverse
        return self

    def __matmul__(self, o):
        return Tensor(self, o)


class Observable(Operator):
    return_type = None


class Tensor(Observable):
    def __init__(self, *obs):
        self.obs = []
        for o in obs:
            self.obs.extend(o.obs if isinstance(o, Tensor) else [o])
        ws = []
        for o in self.obs:
            for w in o.wires:
                if w not in ws:
                    ws.append(w)
        self.wires = Wires(ws)
        self.name = [o.name for o in self.obs]
        self.data = []
        if _TAPES:
            for o in self.obs:
                _TAPES[-1].owned(o)

    @property
    def matrix(self):
        m = None
        for _, g in itertools.groupby(self.obs, lambda o: o.wires.labels):
            u = None
            for o in g:
                u = o.matrix if u is None else u @ o.matrix
            m = u if m is None else np.kron(m, u)
        return sym(obj(m))


def _const(name, mat, bases=(Observable,)):
    M = np.array(mat, dtype=object)

    def _matrix(cls, *p):
        return sym(M.copy())
    return type(name, bases, {'_matrix': classmethod(_matrix)})


_h = S({(P.R2,): Fraction(1, 2)})
PauliX = _const('PauliX', [[0, 1], [1, 0]])
PauliY = _const('PauliY', [[0, -1j], [1j, 0]])
PauliZ = _const('PauliZ', [[1, 0], [0, -1]])
Identity = _const('Identity', [[1, 0], [0, 1]])
Hadamard = _const('Hadamard', [[_h, _h], [_h, -_h]])
SGate = _const('S', [[1, 0], [0, 1j]], (Operator,))
T = _const('T', [[1, 0], [0, _h + 1j * _h]], (Operator,))
SX = _const('SX', [[0.5 + 0.5j, 0.5 - 0.5j], [0.5 - 0.5j, 0.5 + 0.5j]], (Operator,))
CNOT = _const('CNOT', [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], (Operator,))
CZ = _const('CZ', [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, -1]], (Operator,))
CY = _const('CY', [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, -1j], [0, 0, 1j, 0]], (Operator,))
SWAP = _const('SWAP', [[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], (Operator,))
_tof = np.eye(8, dtype=object)
_tof[6:, 6:] = np.array([[0, 1], [1, 0]], dtype=object)
Toffoli = _const('Toffoli', _tof, (Operator,))


def _cs(t):
    t = S_of(t)
    c, s = cos_sin((t / 2).re)
    return S(c), S(s)


def _arr(rows):
    return sym(np.array(rows, dtype=object))


class RX(Operator):
    num_params = 1

    @classmethod
    def _matrix(cls, t):
        c, s = _cs(t)
        return _arr([[c, -1j * s], [-1j * s, c]])


class RY(Operator):
    num_params = 1

    @classmethod
    def _matrix(cls, t):
        c, s = _cs(t)
        return _arr([[c, -s], [s, c]])


class RZ(Operator):
    num_params = 1

    @classmethod
    def _matrix(cls, t):
        c, s = _cs(t)
        return _arr([[c - 1j * s, 0], [0, c + 1j * s]])


class PhaseShift(Operator):
    num_params = 1

    @classmethod
    def _matrix(cls, t):
        t = S_of(t)
        c, s = cos_sin(t.re)
        return _arr([[1, 0], [0, S(c, s)]])


class CRX(Operator):
    num_params = 1

    @classmethod
    def _matrix(cls, t):
        m = obj(np.eye(4, dtype=object))
        m[2:, 2:] = RX._matrix(t)
        return m


class CRZ(Operator):
    num_params = 1

    @classmethod
    def _matrix(cls, t):
        m = obj(np.eye(4, dtype=object))
        m[2:, 2:] = RZ._matrix(t)
        return m


class Rot(Operator):
    num_params = 3

    @classmethod
    def _matrix(cls, a, b, c):
        return RZ._matrix(c) @ RY._matrix(b) @ RZ._matrix(a)


_PAULI = {'I': Identity, 'X': PauliX, 'Y': PauliY, 'Z': PauliZ}


class PauliRot(Operator):
    num_params = 2

    def __init__(self, theta, word, wires=None, **k):
        if not all(c in _PAULI for c in word):
            raise ValueError('The given Pauli word has characters not allowed.')
        super().__init__(theta, word, wires=wires, **k)
        if len(word) != len(self.wires):
            raise ValueError('The given Pauli word has length %d, length %d was expected for wires %s' % (
                len(word), len(self.wires), self.wires))

    @classmethod
    def _matrix(cls, t, word):
        c, s = _cs(t)
        m = None
        for ch in word:
            u = _PAULI[ch]._matrix()
            m = u if m is None else np.kron(m, u)
        return sym(obj(np.eye(2 ** len(word))) * c - m * (1j * s))


class QubitUnitary(Operator):
    num_params = 1

    def __init__(self, U, wires=None, **k):
        super().__init__(U, wires=wires, **k)
        n = len(self.wires)
        if not hasattr(U, 'shape'):
            self.data[0] = U = obj(U)
        if len(U.shape) != 2 or U.shape[0] != U.shape[1]:
            raise ValueError('Operator must be a square matrix.')

    @classmethod
    def _matrix(cls, U):
        return U


class Hermitian(Observable):
    num_params = 1

    @classmethod
    def _matrix(cls, A):
        return sym(obj(A))


class BasisState(Operator):
    num_params = 1
    prep = True


class QubitStateVector(Operator):
    num_params = 1
    prep = True


# ------------------------------------------------------------------------------------------------ execution
class Tape:
    def __init__(self):
        self._prep, self._ops, self.measurements = [], [], []

    def queue(self, op):
        if op.prep:
            if self._ops:
                raise ValueError('%s operation must occur prior to any quantum operations.' % op.name)
            self._prep.append(op)
        else:
            self._ops.append(op)

    def owned(self, o):
        os = o.obs if isinstance(o, Tensor) else [o]
        for x in os:
            self._ops[:] = [y for y in self._ops if y is not x]

    @property
    def operations(self):
        return self._prep + self._ops

    @property
    def observables(self):
        return [m.obs for m in self.measurements if m.obs is not None]

    def __enter__(self):
        _TAPES.append(self)
        return self

    def __exit__(self, *a):
        _TAPES.remove(self)


def apply(psi, M, pos, n):
    """apply the 2^k x 2^k matrix M to the qubits at positions pos of the 2^n amplitudes psi"""
    k = len(pos)
    M = np.asarray(obj(M))
    if M.shape != (2 ** k, 2 ** k):
        raise ValueError('matrix of shape %s on %d wires' % (M.shape, k))
    sh = [n - 1 - p for p in pos]
    mask = 0
    for s in sh:
        mask |= 1 << s
    out = [0] * len(psi)
    for b in range(len(psi)):
        row = 0
        for s in sh:
            row = 2 * row + ((b >> s) & 1)
        base = b & ~mask
        t = 0
        for col in range(2 ** k):
            m = M[row, col]
            if not isinstance(m, S) and m == 0:
                continue
            src = base
            for q, s in enumerate(sh):
                if (col >> (k - 1 - q)) & 1:
                    src |= 1 << s
            a = psi[src]
            if not isinstance(a, S) and a == 0:
                continue
            t = t + m * a
        out[b] = t
    return out


def run(tape, dev):
    n = len(dev.wires)
    psi = [0] * 2 ** n
    psi[0] = 1
    for op in tape.operations:
        pos = [dev.wires.index(w) for w in op.wires]
        if isinstance(op, BasisState):
            idx = 0
            bits = {p: int(b) for p, b in zip(pos, op.data[0])}
            for p in range(n):
                idx = 2 * idx + bits.get(p, 0)
            psi = [0] * 2 ** n
            psi[idx] = 1
        elif isinstance(op, QubitStateVector):
            if pos != list(range(n)):
                raise Unsupported('QubitStateVector on a subset')
            psi = list(np.asarray(obj(op.data[0])).reshape(-1))
        else:
            psi = apply(psi, op.matrix, pos, n)
    return psi


def expectation(psi, o, dev):
    n = len(dev.wires)
    pos = [dev.wires.index(w) for w in o.wires]
    phi = apply(psi, o.matrix, pos, n)
    t = S({})
    for a, b in zip(psi, phi):
        a, b = S_of(a), S_of(b)
        t = t + (a.real * b.real + a.imag * b.imag)
    return t


class Device:
    def __init__(self, name, wires=1, **k):
        self.name = name
        self.short_name = name
        self.wires = Wires(range(wires) if isinstance(wires, (int, np.integer)) else wires)
        self.num_wires = len(self.wires)
        self.shots = None
        self.analytic = True


class QNode:
    def __init__(self, func, device, **k):
        self.func = func
        self.device = device
        self.qtape = None

    def construct(self, args, kwargs):
        t = Tape()
        with t:
            res = self.func(*args, **kwargs)
        self.qtape = t
        self.res = res
        seq = res if isinstance(res, (list, tuple)) else [res]
        if not all(isinstance(m, Measurement) for m in seq) or not seq:
            raise ValueError('A quantum function must return either a single measurement, '
                             'or a nonempty sequence of measurements.')

    def __call__(self, *args, **kwargs):
        self.construct(args, kwargs)
        psi = run(self.qtape, self.device)
        out = []
        seq = self.res if isinstance(self.res, (list, tuple)) else [self.res]
        for m in seq:
            if m.return_type is STATE:
                out.append(sym(np.array(psi, dtype=object)))
            elif m.return_type is EXPVAL:
                x = expectation(psi, m.obs, self.device)
                out.append(named(x, 0) if snp.LET[0] is not None else x)
            elif m.return_type is PROBS:
                out.append(sym(np.array([abs(S_of(a)) ** 2 for a in psi], dtype=object)))
            else:
                raise Unsupported(m.return_type.name)
        return out[0] if not isinstance(self.res, (list, tuple)) else out


def qnode(device, **k):
    return lambda f: QNode(f, device, **k)


def state():
    return Measurement(STATE)


def expval(o):
    return Measurement(EXPVAL, o)


def var(o):
    return Measurement(VARIANCE, o)


def probs(wires=None):
    return Measurement(PROBS)


class Hamiltonian:
    def __init__(self, coeffs, observables, simplify=False):
        if len(coeffs) != len(observables):
            raise ValueError('Could not create valid Hamiltonian; number of coefficients and operators does not match.')
        for o in observables:
            if not isinstance(o, Observable):
                raise ValueError('Could not create circuits. Some or all observables are not valid.')
        self.coeffs, self.ops = list(coeffs), list(observables)

    @property
    def terms(self):
        return self.coeffs, self.ops


class ExpvalCost:
    def __init__(self, ansatz, hamiltonian, device, **k):
        self.hamiltonian = hamiltonian
        self.coeffs = hamiltonian.coeffs
        self.ansatz, self.device = ansatz, device

    def __call__(self, params, **kw):
        t = S({})
        wires = self.device.wires.tolist()
        for c, o in zip(self.hamiltonian.coeffs, self.hamiltonian.ops):
            def circuit(p, **k):
                self.ansatz(p, wires=wires, **k)
                return expval(o)
            t = t + c * QNode(circuit, self.device)(params, **kw)
        return t


def flatten(x):
    if isinstance(x, np.ndarray):
        return [y for z in (x if x.ndim else [x[()]]) for y in flatten(z)]
    if isinstance(x, (list, tuple)):
        return [y for z in x for y in flatten(z)]
    return [x]


def unflatten(vals, like):
    it = iter(vals)

    def rec(t):
        if isinstance(t, np.ndarray):
            out = np.empty(t.shape, dtype=object)
            f = out.reshape(-1)
            for i in range(f.size):
                f[i] = next(it)
            return sym(out)
        if isinstance(t, (list, tuple)):
            return [rec(z) for z in t]
        return next(it)
    return rec(like)


def exact_gradient(fn, params, kw):
    """the gradient of the scalar fn at params, one entry per number in params"""
    flat = [S_of(x) for x in flatten(params)]
    pid = [VARS.var('probe%d' % i) for i in range(len(flat))]
    for p in pid:
        declare_angle({(p,): 1}, Fraction(1, 2))
    f = fn(unflatten([S({(p,): 1}) for p in pid], params), **kw)
    if isinstance(f, np.ndarray):
        if f.size != 1:
            raise Unsupported('gradient of a vector')
        f = f.reshape(-1)[0]
    f = S_of(f)
    if P.prune(f.im):
        raise Unsupported('gradient of a complex function')
    given = set()
    for x in flat:
        if x.im:
            raise Unsupported('complex parameters')
        given |= pvars(x.re)
    for v in pvars(f.re):
        if v in DEFS.defined and v not in PAIRS and v not in given and v not in (P.R2, P.PI):
            raise Unsupported('derivative of ' + VARS.names[v])
    sub = {p: x.re for p, x in zip(pid, flat)}
    return [S(psubst(pderiv(f.re, p), sub)) for p in pid]


def grad(fn, argnum=None):
    """pennylane.grad for a function of one trainable argument"""
    def g(*args, **kw):
        k = argnum if argnum is not None else 0
        if not isinstance(k, int):
            raise Unsupported('several arguments')
        if argnum is None and len(args) != 1:
            raise Unsupported('several arguments')

        def h(x, **kw):
            return fn(*(args[:k] + (x,) + args[k + 1:]), **kw)
        return unflatten(exact_gradient(h, args[k], kw), args[k])
    return g


EXACT = [False]


class GradientDescentOptimizer:
    """x - stepsize * grad f(x), as an uninterpreted function of (stepsize, f, x); f is identified by its canonical
    form on probe parameters"""

    def __init__(self, stepsize=0.01):
        self._stepsize = stepsize

    def step_and_cost(self, fn, *args, **kw):
        if len(args) != 1:
            raise Unsupported('several arguments')
        params = args[0]
        flat = [S_of(x) for x in flatten(params)]
        cost = fn(params, **kw)
        if EXACT[0]:
            g = exact_gradient(fn, params, kw)
            e = S_of(self._stepsize)
            return unflatten([x - e * d for x, d in zip(flat, g)], params), cost
        probes = [S({(VARS.var('probe%d' % i),): 1}) for i in range(len(flat))]
        f = S_of(fn(unflatten(probes, params), **kw))
        eta = S_of(self._stepsize)
        key = ('gd', pkey(eta.re), pkey(f.re), tuple(pkey(x.re) for x in flat))
        r = _memo.get(key)
        if r is None:
            nm = _fresh('gd', key)
            ids = [VARS.var('%s_%d' % (nm, i)) for i in range(len(flat))]
            pid = [VARS.var('probe%d' % i) for i in range(len(flat))]

            def nums(env):
                from .engine import NumEnv
                base = {k: v for k, v in env.items() if k not in DEFS.defined}
                x0 = [peval(x.re, env) for x in flat]
                e = peval(eta.re, env)
                h = 1e-5
                out = []
                for i in range(len(x0)):
                    v = []
                    for d in (h, -h):
                        ne = NumEnv(base)
                        for j, p in enumerate(pid):
                            ne[p] = x0[j] + (d if j == i else 0.0)
                        v.append(peval(f.re, ne))
                    out.append(x0[i] - e * (v[0] - v[1]) / (2 * h))
                return out
            DEFS.add_numeric(ids, nums)
            DEFS.abstract.update(ids)
            r = _memo[key] = [S({(v,): 1}) for v in ids]
        return unflatten(list(r), params), cost

    def update_stepsize(self, stepsize):
        self._stepsize = stepsize

    def step(self, fn, *args, **kw):
        return self.step_and_cost(fn, *args, **kw)[0]


class QmlModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('pennylane.%s' % n)


def make():
    m = QmlModule('pennylane')
    for k in ('PauliX', 'PauliY', 'PauliZ', 'Identity', 'Hadamard', 'T', 'SX', 'CNOT', 'CZ', 'CY', 'SWAP', 'Toffoli',
              'RX', 'RY', 'RZ', 'PhaseShift', 'CRX', 'CRZ', 'Rot', 'PauliRot', 'QubitUnitary', 'Hermitian',
              'BasisState', 'QubitStateVector', 'Device', 'QNode', 'qnode', 'state', 'expval', 'var', 'probs',
              'Hamiltonian', 'ExpvalCost', 'GradientDescentOptimizer', 'grad'):
        setattr(m, k, globals()[k])
    m.S = SGate
    m.device = lambda name, wires=1, **k: Device(name, wires, **k)
    m.wires = types.ModuleType('pennylane.wires')
    m.wires.Wires = Wires
    m.operation = types.ModuleType('pennylane.operation')
    m.operation.Observable = Observable
    m.operation.Tensor = Tensor
    m.__version__ = '0.15.1'
    return m


QML = make()
