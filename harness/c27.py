"""C27: arguments and earlier results stay as they are."""
from . import lib

BOUNDS = {'quick': 'every function and layer call on 1-2 qubits (su(8) and Zassenhaus layers on 3), arbitrary matrices, angles and '
                   'optimiser results; the optimisers for 1-2 steps with all results requested; two calls in a row',
          'thorough': 'as quick with 3 steps and 3 qubits'}
ASSUMPTIONS = ['the optimiser handed to the adaptive layers returns arbitrary parameters of the shape it was given']


class Watch:
    """copies of what was handed in or handed out"""

    def __init__(self, env):
        self.env, self.items = env, []

    def add(self, label, x):
        self.items.append((label, x, self.freeze(x), type(x)))
        return x

    def freeze(self, x):
        if hasattr(x, 'shape') and len(x.shape):
            return x.copy()
        if isinstance(x, (list, tuple)):
            return [self.freeze(y) for y in x]
        if isinstance(x, dict):
            return {k: self.freeze(v) for k, v in x.items()}
        if hasattr(x, 'wires') and hasattr(x, 'matrix'):
            return (x, list(x.wires.tolist()), self.freeze(x.matrix))
        return x

    def same(self, label, x, f):
        env = self.env
        if hasattr(x, 'shape') and len(x.shape):
            env.ok(label + ' keeps its shape', tuple(x.shape) == tuple(f.shape))
            if tuple(x.shape) == tuple(f.shape):
                env.eq(label + ' keeps its entries', x, f)
        elif isinstance(x, (list, tuple)):
            env.ok(label + ' keeps its length', len(x) == len(f))
            if len(x) == len(f):
                for i, (a, b) in enumerate(zip(x, f)):
                    self.same('%s[%d]' % (label, i), a, b)
        elif isinstance(x, dict):
            env.ok(label + ' keeps its keys', list(x) == list(f))
            for k in x:
                if k in f:
                    self.same('%s[%s]' % (label, k), x[k], f[k])
        elif hasattr(x, 'wires') and hasattr(x, 'matrix'):
            env.ok(label + ' stays the same observable', x is f[0] and list(x.wires.tolist()) == f[1])
            env.eq(label + ' keeps its matrix', x.matrix, f[2])
        elif isinstance(x, (str, bool, type(None))):
            env.ok(label + ' stays', x == f)
        elif callable(x):
            env.ok(label + ' stays', x is f)
        elif isinstance(x, (int, float, complex)) or hasattr(x, 'real'):
            env.eq(label + ' stays', x, f)
        else:
            env.ok(label + ' stays', x is f)

    def check(self, when):
        for label, x, f, t in self.items:
            self.env.ok('%s: %s keeps its type' % (when, label), type(x) is t)
            self.same('%s: %s' % (when, label), x, f)


def functions(env):
    ct, ut, pu = env.mod('circuit_tools'), env.mod('utils'), env.mod('plot_utils')
    qml = env.qml
    w = Watch(env)
    n = 2
    which = env.choice('function', ['get_full_operator', 'one qubit', 'get_hamiltonian_matrix', 'get_all_su_n_directions',
                                    'param_shift_comm', 'operator_2_norm', 'state_to_spherical', 'get_ops_from_qnode',
                                    'get_commuting_set', 'paulis'])
    if which == 'get_full_operator':
        op = w.add('operator', env.matrix('A', 4))
        wires = w.add('wires', [1, 0])
        r = w.add('result', ct.get_full_operator(op, wires, n))
        ct.get_full_operator(env.matrix('B', 4), [0, 1], n)
    elif which == 'one qubit':
        op = w.add('operator', env.matrix('A', 2))
        r = ct.get_full_operator(op, (0,), 1)
        r *= 0      # the result is the caller's own
    elif which == 'get_hamiltonian_matrix':
        obs = w.add('observables', [qml.Hermitian(env.matrix('A', 2, kind='hermitian'), wires=[1])] +
                    lib.obs_list(env, [('ZX', (1, 0))]))
        c = w.add('coefficients', [env.real('c0'), env.real('c1')])
        w.add('result', ct.get_hamiltonian_matrix(n, obs, c))
        ct.get_hamiltonian_matrix(n, obs)
        H = ct.get_hamiltonian_matrix(1, [qml.PauliZ(0)])
        H *= 0
    elif which == 'get_all_su_n_directions':
        U = w.add('unitary', env.matrix('U', 4, kind='unitary'))
        obs = w.add('observables', lib.obs_list(env, [('Z', (0,)), ('XY', (1, 0))]))
        dev = qml.device('default.qubit', wires=n)
        w.add('result', ct.get_all_su_n_directions(U, obs, dev))
        ct.get_all_su_n_directions(env.matrix('V', 4, kind='unitary'), obs, dev)
    elif which == 'param_shift_comm':
        rho = w.add('state', env.matrix('R', 2))
        O = w.add('observable', lib.word(env, 'Y'))
        w.add('result', ct.param_shift_comm(rho, lambda t: env.expm(-1j * t / 2 * O)))
    elif which == 'operator_2_norm':
        ut.operator_2_norm(w.add('matrix', env.matrix('R', 2)))
    elif which == 'state_to_spherical':
        t, p = env.angle('theta'), env.angle('phi')
        rho = w.add('state', pu.spherical_to_state(p, t))
        env.assume(t >= 0.1), env.assume(t <= 3), env.assume(p >= 0.1), env.assume(p <= 3)
        pu.state_to_spherical(rho)
    elif which == 'get_ops_from_qnode':
        params = w.add('parameters', [env.angle('a'), [env.angle('b'), 0.5]])

        def circuit(p, **k):
            qml.RX(p[0], wires=0)
            qml.RY(p[1][0], wires=1)
            qml.CNOT(wires=[0, 1])
            return qml.state()
        dev = qml.device('default.qubit', wires=n)
        w.add('result', list(ct.get_ops_from_qnode(circuit, params, dev)[0]))
        ct.get_ops_from_qnode(circuit, [0.1, [0.2, 0.3]], dev)
    elif which == 'get_commuting_set':
        edges = env.choice('edges', [[(0, 1), (2, 3)], [(0, 1), (1, 2), (2, 3)], [(1, 0), (2, 0), (3, 0)], [(2,), (0,)]])
        w.add('edges', edges)
        ct.get_commuting_set(edges)
    else:
        for f in (lambda: ut.get_su_2_operators(identity=True), ut.get_su_4_operators, lambda: ut.get_su_n_operators(4)):
            a = f()
            b = w.add('second result', f())
            for x in a:
                x *= 0      # earlier results are the caller's own
    w.check(which)


def make(env, kind, dev, obs, directions):
    ot = env.mod('opt_tools')
    return {'local1': lambda: ot.LocalLieAlgebraLayer(dev, obs, 1, directions=directions, eta=0.5),
            'local1_trotter': lambda: ot.LocalLieAlgebraLayer(dev, obs, 1, trotterize=True, unitary_error_check=False),
            'local2': lambda: ot.LocalLieAlgebraLayer(dev, obs, 2, directions=directions),
            'custom': lambda: ot.CustomDirectionLieAlgebraLayer(dev, obs, directions),
            'custom_trotter': lambda: ot.CustomDirectionLieAlgebraLayer(dev, obs, directions, trotterize=True),
            'squared': lambda: ot.SquaredLieAlgebraLayer(dev, obs),
            'su8': lambda: ot.SU8_AlgebraLayer(dev, obs, add_su2=False, add_su4=False),
            'zassenhaus': lambda: ot.ZassenhausLayer(dev, obs)}[kind]()


def layers(env, kind, n, unitary='unitary', calls=2):
    w = Watch(env)
    env.linear_abs()
    dev = env.qml.device('default.qubit', wires=n)
    obs = w.add('observables', lib.obs_list(env, [('Z', (0,))] if n == 1 or n == 3 else [('Z', (1,)), ('XY', (1, 0))]))
    directions = {'local1': ['Y', 'X'], 'local2': ['XX', 'ZY'], 'custom': ['Z', 'YX'], 'custom_trotter': ['Y', 'XX']}.get(kind)
    if directions is not None:
        w.add('directions', directions)
    layer = make(env, kind, dev, obs, directions)
    for c in range(calls):
        W = w.add('unitary %d' % c, env.matrix('W%d' % c, 2 ** n, kind=unitary))
        w.add('result %d' % c, layer(W))
        w.check('call %d' % (c + 1))
    if calls == 1 and n < 3:
        layer.get_lie_algebra_directions(W)
        w.check('directions')


def adaptive(env, kind, n):
    ot = env.mod('opt_tools')
    w = Watch(env)
    env.linear_abs()
    dev = env.qml.device('default.qubit', wires=n)
    obs = w.add('observables', lib.obs_list(env, [('Z', (1,))]))
    W = w.add('unitary', env.matrix('W', 2 ** n, kind='orthogonal'))

    def optimizer(circuit, params, observables, device=None, **kw):
        def rec(p):
            return [rec(x) for x in p] if isinstance(p, list) else 0.3
        return [0.0], [env.np.array(rec(params)), env.np.array(rec(params))]
    if kind == 'adapt':
        layer = ot.AdaptVQELayer(dev, obs)
        params = w.add('parameters', [])
        r = layer(W, params=params, optimizer=optimizer)
    else:
        layer = ot.SquaredLieAlgebraLayer(dev, obs)
        r = layer(W, commute=True, optimizer=optimizer)
    w.add('result', r[0])
    w.check('first call')
    if kind == 'adapt':
        p2 = w.add('parameters of the first call', r[1])
        V = w.add('second unitary', r[0])
        layer(V, params=p2, optimizer=optimizer)
        w.check('second call')


def optimisers(env, kind, n, nsteps, array=False):
    op = env.mod('optimizers')
    ot = env.mod('opt_tools')
    qml = env.qml
    w = Watch(env)
    env.let_limit(12)
    dev = qml.device('default.qubit', wires=n)
    spec = [('Z', (n - 1,))] + ([('X', (0,))] if kind != 'exact' else [])
    obs = w.add('observables', lib.obs_list(env, spec))
    W = w.add('unitary of the circuit', env.matrix('W', 2 ** n, kind='unitary'))
    given = [env.angle('t%d' % i) for i in range(n)]
    params = w.add('parameters', env.np.array(given) if array else given)

    def circuit(p, **k):
        if kind != 'shift':
            qml.QubitUnitary(W, wires=list(range(n)))
        for i in range(n):
            qml.RY(p[i], wires=i)
        if kind != 'shift':
            return qml.state()
    if kind == 'shift':
        r = op.parameter_shift_optimizer(circuit, params, obs, dev, nsteps=nsteps, tol=0., return_state=True, return_params=True)
        if array:
            w.check('after the run')
            params *= 0         # the caller goes on with its own array
            env.eq('the first parameters of the result are those of the start', list(r[2][0]), given)
            return
    elif kind == 'exact':
        op.exact_lie_optimizer(circuit, params, obs, dev, nsteps=nsteps, eta=0.5, return_state=True, return_unitary=True)
    else:
        class Layer(ot.LieLayer):
            def __call__(self, U, *a, **k):
                c[0] += 1
                given.append(U)
                w.add('unitary given to layer call %d' % c[0], U)
                return w.add('unitary returned by layer call %d' % c[0], env.matrix('V%d' % c[0], 2 ** n, kind='unitary'))

            def __repr__(self):
                return 'layer'
        c, given = [0], []
        ls = w.add('layers', [Layer(dev, obs, n), Layer(dev, obs, n)])
        op.approximate_lie_optimizer(circuit, params, obs, dev, ls, nsteps=nsteps, tol=None, return_state=True,
                                     return_omegas=True, return_unitary=True, return_gates=True)
    w.check('after the run')


def adapt_run(env):
    """the adaptive layer inside the optimiser: the caller's parameter list stays empty"""
    op, ot = env.mod('optimizers'), env.mod('opt_tools')
    qml = env.qml
    w = Watch(env)
    n = 2
    dev = qml.device('default.qubit', wires=n)
    obs = w.add('observables', lib.obs_list(env, [('ZZ', (0, 1)), ('X', (0,))]))
    U = w.add('unitary of the circuit', env.matrix('W', 4, kind='unitary'))
    params = w.add('parameters', [])

    class Layer(ot.AdaptVQELayer):
        def __call__(self, circuit_unitary, *a, **k):
            p = k['params']
            return U, p + [[0.1, 0.2]]
    layer = w.add('layers', [Layer(dev, obs)])
    op.approximate_lie_optimizer(lib.unitary_circuit(env, U, n), params, obs, dev, layer, nsteps=2, tol=None)
    w.check('after the run')


OPTIONS = {'layers': {'skip_lets': True, 'max_paths': 60}, 'adaptive': {'skip_lets': True, 'max_paths': 60},
           'optimisers': {'skip_lets': True}}


def scenarios(tier):
    out = [('functions', functions, {})]
    out += [('%s_n1' % k, layers, dict(kind=k, n=1)) for k in ('local1', 'local1_trotter', 'squared')]
    out += [('%s_n2' % k, layers, dict(kind=k, n=2)) for k in ('local1', 'local2', 'custom', 'custom_trotter')]
    out += [('squared_n2', layers, dict(kind='squared', n=2, unitary='orthogonal', calls=1)),
            ('su8_n3', layers, dict(kind='su8', n=3, unitary='orthogonal', calls=1)),
            ('zassenhaus_n3', layers, dict(kind='zassenhaus', n=3, unitary='orthogonal', calls=1)),
            ('adapt_n2', adaptive, dict(kind='adapt', n=2)), ('commuting_n2', adaptive, dict(kind='commute', n=2)),
            ('adapt_run', adapt_run, {})]
    out.append(('shift_run_array', optimisers, dict(kind='shift', n=2, nsteps=1, array=True)))
    for k in ('shift', 'exact', 'layers'):
        out += [('%s_run_n1' % k, optimisers, dict(kind=k, n=1, nsteps=2)), ('%s_run_n2' % k, optimisers, dict(kind=k, n=2, nsteps=1))]
    if tier == 'thorough':
        out += [('layers_run_s3', optimisers, dict(kind='layers', n=2, nsteps=3)),
                ('local1_n3', layers, dict(kind='local1', n=3)), ('custom_n3', layers, dict(kind='custom', n=3))]
    return out
