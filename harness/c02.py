"""C02: gate extraction from circuits."""
import itertools
import cmath
from . import lib

BOUNDS = {'quick': '1 gate of every kind on every wire tuple (1-3 qubits, .inv() included), 2-3 gate sequences (repeated gates included) from a '
                   'smaller alphabet on 2-3 qubits, symbolic angles and symbolic QubitUnitary entries; observables '
                   'constructed for the measurement; the initial record of the optimisers',
          'thorough': 'as quick with 3-gate sequences from the full two-qubit alphabet and 4-gate sequences'}


def gates(env):
    """name -> (number of wires, number of angles, builder(params, wires), independent matrix(params))"""
    qml = env.qml
    h = env.sqrt(2) / 2
    c = lambda t: env.cos(t / 2)
    s = lambda t: env.sin(t / 2)
    ctrl = lambda m: [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, m[0][0], m[0][1]], [0, 0, m[1][0], m[1][1]]]
    rx = lambda t: [[c(t), -1j * s(t)], [-1j * s(t), c(t)]]
    ry = lambda t: [[c(t), -1 * s(t)], [s(t), c(t)]]
    rz = lambda t: [[c(t) - 1j * s(t), 0], [0, c(t) + 1j * s(t)]]

    def rot(word):
        def m(t):
            n = 2 ** len(word)
            P = lib.word(env, word)
            return [[(c(t) if i == j else 0) - 1j * s(t) * P[i, j] for j in range(n)] for i in range(n)]
        return m
    G = {
        'PauliX': (1, 0, lambda p, w: qml.PauliX(wires=w), lambda: lib.PAULI['X']),
        'PauliY': (1, 0, lambda p, w: qml.PauliY(wires=w), lambda: lib.PAULI['Y']),
        'PauliZ': (1, 0, lambda p, w: qml.PauliZ(wires=w), lambda: lib.PAULI['Z']),
        'Hadamard': (1, 0, lambda p, w: qml.Hadamard(wires=w), lambda: [[h, h], [h, -h]]),
        'S': (1, 0, lambda p, w: qml.S(wires=w), lambda: [[1, 0], [0, 1j]]),
        'T': (1, 0, lambda p, w: qml.T(wires=w), lambda: [[1, 0], [0, h + 1j * h]]),
        'RX': (1, 1, lambda p, w: qml.RX(p[0], wires=w), rx),
        'RY': (1, 1, lambda p, w: qml.RY(p[0], wires=w), ry),
        'RZ': (1, 1, lambda p, w: qml.RZ(p[0], wires=w), rz),
        'PhaseShift': (1, 1, lambda p, w: qml.PhaseShift(p[0], wires=w),
                       lambda t: [[1, 0], [0, env.cos(t) + 1j * env.sin(t)]]),
        'CNOT': (2, 0, lambda p, w: qml.CNOT(wires=w), lambda: ctrl(lib.PAULI['X'])),
        'CZ': (2, 0, lambda p, w: qml.CZ(wires=w), lambda: ctrl(lib.PAULI['Z'])),
        'CY': (2, 0, lambda p, w: qml.CY(wires=w), lambda: ctrl(lib.PAULI['Y'])),
        'SWAP': (2, 0, lambda p, w: qml.SWAP(wires=w),
                 lambda: [[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]]),
        'CRX': (2, 1, lambda p, w: qml.CRX(p[0], wires=w), lambda t: ctrl(rx(t))),
        'CRZ': (2, 1, lambda p, w: qml.CRZ(p[0], wires=w), lambda t: ctrl(rz(t))),
        'PauliRotXY': (2, 1, lambda p, w: qml.PauliRot(p[0], 'XY', wires=w), rot('XY')),
        'PauliRotZZ': (2, 1, lambda p, w: qml.PauliRot(p[0], 'ZZ', wires=w), rot('ZZ')),
        'Toffoli': (3, 0, lambda p, w: qml.Toffoli(wires=w),
                    lambda: [[1 if (i == j and i < 6) or (i, j) in ((6, 7), (7, 6)) else 0 for j in range(8)]
                             for i in range(8)]),
        'PauliRotXYZ': (3, 1, lambda p, w: qml.PauliRot(p[0], 'XYZ', wires=w), rot('XYZ')),
    }
    return G


def slots(env, n, names_per_slot, wire_perms=True, inv=False):
    G = gates(env)
    U = lib.eye(env, 2 ** n)
    plan, params = [], []
    for i, names in enumerate(names_per_slot):
        name = env.choice('gate%d' % i, names)
        if name == 'U':
            k, na = env.choice('arity%d' % i, [1, 2][:n]), 0
            M = env.matrix('U%d' % i, 2 ** k, kind='unitary')
            build = lambda p, w, M=M: env.qml.QubitUnitary(M, wires=w)
            mat = lambda M=M: M
        else:
            k, na, build, mat = G[name]
        w = env.choice('wires%d' % i, [list(p) for p in itertools.permutations(range(n), k)])
        th = [env.angle('t%d_%d' % (i, j)) for j in range(na)]
        dagger = inv and env.bool('inv%d' % i)
        plan.append((build, len(params), na, w, dagger))
        params += th
        m = mat(*th)
        m = m if hasattr(m, 'shape') else env.arr(m)
        if dagger:
            m = lib.dag(m)
        U = env.embed(m, w, n) @ U

    def circuit(p, **kwargs):
        for build, o, na, w, dagger in plan:
            g = build(list(p)[o:o + na], w)
            if dagger:
                g.inv()
        return env.qml.state()
    return circuit, params, U, len(plan)


def product(env, ct, ops, wires, n):
    V = lib.eye(env, 2 ** n)
    for op, w in zip(ops, wires):
        V = ct.get_full_operator(op, w, n) @ V
    return V


def extract(env, n, names, inv=False):
    ct = env.mod('circuit_tools')
    circuit, params, U, count = slots(env, n, names, inv=inv)
    dev = env.qml.device('default.qubit', wires=n)
    ops, wires = ct.get_ops_from_qnode(circuit, params, dev)
    env.ok('one wire tuple per gate', len(ops) == len(wires))
    V = product(env, ct, ops, wires, n)
    env.out('unitary', V)
    env.eq('product of the extracted gates is the unitary of the circuit', V, U)


def initial(env, n, names, which):
    """the optimisers start from the state the circuit prepares"""
    op = env.mod('optimizers')
    circuit, params, U, _ = slots(env, n, names)
    dev = env.qml.device('default.qubit', wires=n)
    spec = [('Z', (0,))]
    if which == 'exact':
        costs, states = op.exact_lie_optimizer(circuit, params, lib.obs_list(env, spec), dev, nsteps=1, eta=0.,
                                               return_state=True)
    else:
        ot = env.mod('opt_tools')

        class Idle(ot.LieLayer):
            def __call__(self, circuit_unitary, *a, **k):
                return circuit_unitary

            def __repr__(self):
                return 'idle'
        layer = Idle(dev, lib.obs_list(env, spec), n)
        costs, states, unitaries = op.approximate_lie_optimizer(
            circuit, params, lib.obs_list(env, spec), dev, [layer], nsteps=1, return_state=True, return_unitary=True)
        env.eq('initial unitary is the circuit', unitaries[0], U)
    env.out('state', states[0])
    env.eq('initial state is the one the circuit prepares', states[0], lib.col(U))
    env.eq('initial cost', costs[0], lib.cost(env, U, lib.obs_mats(env, spec, n)))


def measured(env, n):
    """observables constructed for the measurement are not gates of the circuit"""
    ct = env.mod('circuit_tools')
    qml = env.qml
    t = env.angle('t')
    which = env.choice('obs', ['X', 'ZZ', 'YX', 'H'])
    wires = env.choice('wires', [[0, 1], [1, 0]])

    def circuit(p, **kwargs):
        qml.RY(p[0], wires=1)
        qml.CNOT(wires=[1, 0])
        if which == 'H':
            return qml.expval(qml.Hermitian(lib.word(env, 'XZ'), wires=wires))
        return qml.expval(lib.obs_list(env, [(which, wires)])[0])
    dev = qml.device('default.qubit', wires=n)
    ops, ws = ct.get_ops_from_qnode(circuit, [t], dev)
    V = product(env, ct, ops, ws, n)
    env.out('unitary', V)
    c, s = env.cos(t / 2), env.sin(t / 2)
    U = env.embed(env.arr([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]]), [1, 0], n) @ \
        env.embed(env.arr([[c, -1 * s], [s, c]]), [1], n)
    env.eq('gates of a measured circuit', V, U)


def prep(env, n):
    ct = env.mod('circuit_tools')
    qml = env.qml
    kind = env.choice('prep', ['basis', 'vector', 'none'])
    t = env.angle('t')

    def circuit(p, **kwargs):
        if kind == 'basis':
            qml.BasisState(env.np.array([1, 0]), wires=[0, 1])
        elif kind == 'vector':
            qml.QubitStateVector(env.np.array([0., 0., 1., 0.]), wires=[0, 1])
        qml.RX(p[0], wires=0)
        return qml.state()
    dev = qml.device('default.qubit', wires=n)
    r = env.call(ct.get_ops_from_qnode, circuit, [t], dev)
    env.out('accepted', r.ok)
    env.ok('a circuit with state preparation %r is %s' % (kind, 'accepted' if kind == 'none' else 'refused'),
           r.ok == (kind == 'none'))


ONE = ['PauliX', 'PauliY', 'PauliZ', 'Hadamard', 'S', 'T', 'RX', 'RY', 'RZ', 'PhaseShift']
TWO = ['CNOT', 'CZ', 'CY', 'SWAP', 'CRX', 'CRZ', 'PauliRotXY', 'PauliRotZZ']


def scenarios(tier):
    out = [('one_gate_n1', extract, dict(n=1, names=[ONE + ['U']], inv=True)),
           ('one_gate_n2', extract, dict(n=2, names=[ONE + TWO + ['U']], inv=True)),
           ('one_gate_n3', extract, dict(n=3, names=[['RY', 'CNOT', 'CRX', 'PauliRotXY', 'Toffoli', 'PauliRotXYZ', 'U']])),
           ('two_gates_n2', extract, dict(n=2, names=[['RX', 'T', 'CNOT', 'U'], ['RY', 'RZ', 'CRX', 'CNOT', 'PauliRotXY']])),
           ('three_gates_n2', extract, dict(n=2, names=[['RY', 'CNOT'], ['RX', 'CRZ'], ['RY', 'Hadamard', 'CNOT']])),
           ('repeated_n1', extract, dict(n=1, names=[['S', 'T', 'Hadamard', 'PauliX', 'PauliY']] * 3)),
           ('repeated_n2', extract, dict(n=2, names=[['S', 'CNOT', 'CY', 'SWAP']] * 2)),
           ('repeated_turns', extract, dict(n=1, names=[['RX', 'RZ', 'PhaseShift']] * 3)),
           ('two_gates_n3', extract, dict(n=3, names=[['RX', 'CNOT'], ['RY', 'PauliRotXY']])),
           ('initial_exact', initial, dict(n=2, names=[['RX', 'U'], ['CNOT', 'RY']], which='exact')),
           ('initial_layers', initial, dict(n=2, names=[['RX', 'U'], ['CNOT', 'RY']], which='layers')),
           ('measured', measured, dict(n=2)), ('prep', prep, dict(n=2))]
    if tier == 'thorough':
        out += [('three_gates_full_n2', extract, dict(n=2, names=[['RX', 'U', 'CNOT'], ['RY', 'RZ', 'CRX', 'PauliRotXY', 'SWAP'],
                                                                 ['T', 'CZ', 'CNOT', 'RX']])),
                ('four_gates_n2', extract, dict(n=2, names=[['RY', 'CNOT']] * 4)),
                ('three_gates_n3', extract, dict(n=3, names=[['RX', 'CNOT'], ['CRZ', 'Hadamard'], ['RY', 'CNOT']])),
                ('one_gate_n4', extract, dict(n=4, names=[['RY', 'CNOT', 'PauliRotXY', 'Toffoli']]))]
    return out
