"""C24: random perturbations."""
from . import lib

BOUNDS = {'quick': 'layer-based: 11-12 steps of arbitrary layers on one qubit, perturbations at steps 9-11; exact: 6-7 steps on one '
                   'qubit, perturbations at steps 4-5, every initial unitary; every draw of the random matrix, every learning rate; '
                   'three fixed draws (small and large, of both signs) on one and two qubits with every initial unitary',
          'thorough': 'as quick with up to 14 (layers) and 9 (exact) steps'}
ASSUMPTIONS = ['numpy.linalg.eigh returns some eigendecomposition of the Hermitian matrix it is given',
               'histories are made stuck by a tolerance above every cost difference (layers) or by a constant cost (exact)']


def is_unitary(env, label, R, N):
    env.eq(label, R @ lib.dag(R), lib.eye(env, N))


def layers(env, nsteps, perturb, stuck, count=1):
    """R9, R10, ... are arbitrary; what a layer receives after a perturbation is a unitary times what the last one returned"""
    n = 1
    ot, op = env.mod('opt_tools'), env.mod('optimizers')
    dev = env.qml.device('default.qubit', wires=n)
    spec = [('Z', (0,))]
    obs = lib.obs_list(env, spec)
    mats = lib.obs_mats(env, spec, n)
    eta = env.real('eta', 0, 1)
    log = []
    flip = lib.word(env, 'X')

    class Any(ot.LieLayer):
        def __call__(self, circuit_unitary, *a, **k):
            i = len(log)
            if i >= 9:
                R = env.unitary2('R%d' % i)
            else:
                R = lib.eye(env, 2)
            if stuck == 'never':       # costs five steps apart differ by two
                R = flip if (i // 5) % 2 else lib.eye(env, 2)
            log.append((circuit_unitary, R))
            return R

        def __repr__(self):
            return 'layer'
    tol = {'always': 3.0, 'never': 0.1, 'off': None}[stuck]
    r = op.approximate_lie_optimizer(lib.unitary_circuit(env, lib.eye(env, 2), n), [], obs, dev,
                                     [Any(dev, obs, n) for _ in range(count)], nsteps=nsteps, tol=tol, eta=eta,
                                     return_state=True, return_unitary=True, return_perturbations=True,
                                     **({'perturb': perturb} if perturb is not None else {}))
    if not isinstance(r, tuple) or len(r) != 4:
        env.fail('one result per requested flag')
        return
    costs, states, us, perts = r
    want = list(range(9, nsteps)) if perturb and stuck == 'always' else []
    env.ok('perturbed exactly when stuck and asked to', list(perts) == want)
    env.ok('costs and states', len(costs) == len(states) == len(us) == len(log) + 1)
    for s in range(1, len(log)):
        got, last = log[s][0], log[s - 1][1]
        if s - 1 in perts:
            is_unitary(env, 'step %d starts from a unitary times the last unitary' % s, got @ lib.dag(last), 2)
        else:
            env.eq('step %d starts from the last unitary' % s, got, last)
    for k in range(1, len(costs)):
        env.eq('state %d' % k, states[k], lib.col(log[k - 1][1]))
        env.eq('unitary %d' % k, us[k], log[k - 1][1])
        env.eq('cost %d' % k, costs[k], lib.cost(env, log[k - 1][1], mats))
    env.out('inputs', [l[0] for l in log])


def exact(env, nsteps, perturb, n=1, start='any'):
    """a constant cost (observable: the identity) is stuck from the start"""
    op = env.mod('optimizers')
    N = 2 ** n
    eta = env.real('eta', 0, 1)
    W = env.matrix('W', N, kind='unitary') if start == 'any' else lib.word(env, start)
    dev = env.qml.device('default.qubit', wires=n)
    kw = {} if perturb is None else {'perturbation': perturb}
    if perturb:
        kw['return_perturbations'] = True
    r = op.exact_lie_optimizer(lib.unitary_circuit(env, W, n), [], [env.qml.Identity(0)], dev, nsteps=nsteps, eta=eta,
                               return_state=True, return_unitary=True, **kw)
    if not isinstance(r, tuple) or len(r) != 3 + bool(perturb):
        env.fail('one result per requested flag')
        return
    costs, states, U = r[0], r[1], r[-1]
    if not perturb:
        env.ok('stopped, not perturbed', len(costs) == min(nsteps, 5) + 1)
        env.eq('the unitary is the initial one', U, W)
        return
    perts = list(r[2])
    env.ok('perturbed exactly when stuck', [p for p in perts if p < nsteps - 1] == list(range(4, nsteps - 1)))
    env.ok('every step is taken', len(costs) == nsteps + 1)
    for k in range(6):
        env.eq('state %d is the initial one' % k, states[k], lib.col(W))
    if perts:
        R = env.left_factor(U, W) if start == 'any' else U @ lib.dag(W)
        is_unitary(env, 'the perturbed run is a unitary times the initial one', R, N)
        for k in range(6, len(states)):
            # the recorded states of a unitary run have the norm of the initial one
            env.eq('norm of state %d' % k, env.expect(states[k], lib.eye(env, N)), env.expect(lib.col(W), lib.eye(env, N)))
        env.eq('the last state is the one of the returned unitary', states[-1], lib.col(U))
    env.out('unitary', U)


def draw(shp):
    n = shp[0]
    return [[((7 * i + 3 * j + i * j * j) % 11 - 5) / 4 for j in range(shp[1])] for i in range(n)]


def effective(env, kind, n):
    """a draw that is not symmetric does move the run (fixed draws, every initial unitary)"""
    ot, op = env.mod('opt_tools'), env.mod('optimizers')
    N = 2 ** n
    W = env.matrix('W', N, kind='unitary')
    dev = env.qml.device('default.qubit', wires=n)
    scale = env.choice('scale', [1, 8, -8])
    env.draws = lambda shp: [[scale * x for x in row] for row in draw(shp)]
    obs = [env.qml.Identity(0)]
    circuit = lib.unitary_circuit(env, W, n)
    if kind == 'exact':
        r = op.exact_lie_optimizer(circuit, [], obs, dev, nsteps=7, eta=0.5, perturbation=True, return_perturbations=True,
                                   return_unitary=True)
        if not isinstance(r, tuple) or len(r) != 3:
            env.fail('one result per requested flag')
            return
        perts, U = r[1], r[2]
        times = len([p for p in perts if p < 6])
    else:
        log = []

        class Still(ot.LieLayer):
            def __call__(self, circuit_unitary, *a, **k):
                log.append(circuit_unitary)
                return circuit_unitary

            def __repr__(self):
                return 'still'
        # a free matrix stands for the unitary, so the cost is only known not to change before the first perturbation
        r = op.approximate_lie_optimizer(circuit, [], obs, dev, [Still(dev, obs, n)], nsteps=11, eta=0.5, perturb=True,
                                         return_perturbations=True)
        if not isinstance(r, tuple) or len(r) != 2:
            env.fail('one result per requested flag')
            return
        U, times = log[-1], 1
        env.ok('perturbed', 9 in r[1])
    R = env.left_factor(U, W)
    is_unitary(env, 'unitary', R, N)
    off = [env.abs(R[i, j]) for i in range(N) for j in range(N) if i != j]
    env.ok('the run goes on from somewhere else', env.any([x >= 1e-3 for x in off]))
    env.ok('perturbed as often as recorded', times >= 1)
    env.out('factor', R)


def scenarios(tier):
    out = [('layers_s11', layers, dict(nsteps=11, perturb=True, stuck='always')),
           ('layers_s12', layers, dict(nsteps=12, perturb=True, stuck='always', count=2)),
           ('layers_moving', layers, dict(nsteps=12, perturb=True, stuck='never')),
           ('layers_notol', layers, dict(nsteps=12, perturb=True, stuck='off')),
           ('layers_notasked', layers, dict(nsteps=12, perturb=False, stuck='always')),
           ('layers_default', layers, dict(nsteps=12, perturb=None, stuck='always')),
           ('exact_s6', exact, dict(nsteps=6, perturb=True)),
           ('exact_s7', exact, dict(nsteps=7, perturb=True, start='X')),
           ('effective_layers', effective, dict(kind='layers', n=1)),
           ('effective_layers_n2', effective, dict(kind='layers', n=2)),
           ('effective_exact', effective, dict(kind='exact', n=1)),
           ('effective_exact_n2', effective, dict(kind='exact', n=2)),
           ('exact_notasked', exact, dict(nsteps=7, perturb=False)),
           ('exact_default', exact, dict(nsteps=6, perturb=None))]
    if tier == 'thorough':
        out += [('layers_s14', layers, dict(nsteps=14, perturb=True, stuck='always')),
                ('exact_any_s7', exact, dict(nsteps=7, perturb=True)), ('exact_s8', exact, dict(nsteps=8, perturb=True, start='I'))]
    return out
