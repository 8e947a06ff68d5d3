"""C08: what an optimiser returns describes one and the same run."""
from . import lib

BOUNDS = {'quick': 'layer-based: 1-3 arbitrary layers (each call returns an arbitrary unitary), 1-4 steps, all 64 flag '
                   'combinations on one qubit, selected ones on two; 11 steps with perturbations; exact: 1-2 steps with all flags, 5-6 steps with '
                   'perturbation; parameter shift: 1-3 steps, all flags',
          'thorough': 'as quick with up to 6 steps, 3 layers and two qubits'}
ASSUMPTIONS = ['gradient descent is an uninterpreted function of (step size, cost function, parameters)']


def unpack(env, r, flags, base_list):
    """results by name, in the documented order"""
    names = ['costs'] + [n for n, f in flags if f]
    if len(names) == 1:
        env.ok('a plain list of costs when nothing else is requested', not isinstance(r, tuple))
        return {'costs': r}
    if not isinstance(r, tuple) or len(r) != len(names):
        env.fail('one result per requested flag', 'expected %s' % names)
        return None
    return dict(zip(names, r))


def own(spec, i):
    """every layer has observables of its own, the first those of the run"""
    turn = dict(zip('XYZ', 'YZX'))
    for _ in range(i):
        spec = [(''.join(turn[c] for c in w), q) for w, q in spec]
    return spec


def make_layers(env, ot, dev, spec, n, count, log):
    class Any(ot.LieLayer):
        def __init__(self, i):
            super().__init__(dev, lib.obs_list(env, own(spec, i)), n)
            self.i = i
            self.su_state = 's%d_0' % i
            self.calls = 0

        def __call__(self, circuit_unitary, *a, **k):
            R = env.matrix('R%d' % len(log), 2 ** n, kind='unitary')
            log.append((self.i, circuit_unitary, R, self.su_state))
            self.calls += 1
            self.su_state = 's%d_%d' % (self.i, self.calls)
            return R

        def __repr__(self):
            return 'layer %d' % self.i

    return [Any(i) for i in range(count)]


def approx(env, n, spec, steps, counts, all_flags, tol=None):
    ot, op = env.mod('opt_tools'), env.mod('optimizers')
    W = env.matrix('W', 2 ** n, kind='unitary')
    dev = env.qml.device('default.qubit', wires=n)
    obs = lib.obs_list(env, spec)
    mats = lib.obs_mats(env, spec, n)
    count = env.choice('layers', counts)
    nsteps = env.choice('nsteps', steps)
    names = ['return_state', 'return_omegas', 'return_unitary', 'return_gates', 'return_perturbations',
             'return_zassenhaus']
    if all_flags:
        flags = [(nm, env.bool(nm)) for nm in names]
    else:
        pick = env.choice('flags', [names, ['return_state', 'return_unitary'], ['return_omegas']])
        flags = [(nm, nm in pick) for nm in names]
    log = []
    layers = make_layers(env, ot, dev, spec, n, count, log)
    kw = {nm: True for nm, f in flags if f}
    r = op.approximate_lie_optimizer(lib.unitary_circuit(env, W, n), [], obs, dev, layers, nsteps=nsteps, tol=tol, **kw)
    res = unpack(env, r, flags, None)
    if res is None:
        return
    env.ok('one layer call per step', len(log) == nsteps)
    env.ok('layers in order, cyclically', [l[0] for l in log] == [s % count for s in range(nsteps)])
    us = [W] + [l[2] for l in log]
    for s in range(nsteps):
        env.eq('input of step %d is the previous unitary' % s, log[s][1], us[s])
    env.ok('one cost per step and the initial one', len(res['costs']) == nsteps + 1)
    for k in range(nsteps + 1):
        env.eq('cost %d' % k, res['costs'][k], lib.cost(env, us[k], mats))
    env.out('costs', res['costs'])
    if 'return_state' in res:
        env.ok('one state per step and the initial one', len(res['return_state']) == nsteps + 1)
        for k in range(nsteps + 1):
            env.eq('state %d' % k, res['return_state'][k], lib.col(us[k]))
        env.out('states', list(res['return_state']))
    if 'return_unitary' in res:
        env.ok('one unitary per step and the initial one', len(res['return_unitary']) == nsteps + 1)
        for k in range(nsteps + 1):
            env.eq('unitary %d' % k, res['return_unitary'][k], us[k])
    if 'return_omegas' in res:
        env.ok('directions once per step', len(res['return_omegas']) == nsteps)
        for k in range(nsteps):
            d = res['return_omegas'][k]
            ms = lib.obs_mats(env, own(spec, log[k][0]), n)
            for w in lib.words(n, 'IXYZ'):
                P = lib.word(env, w)
                t = 0
                for O in ms:
                    t = t + lib.bracket(env, lib.col(us[k + 1]), P @ O - O @ P).imag
                env.eq('direction %s of step %d' % (w, k), d[w], t / 2 ** n)
    if 'return_gates' in res:
        env.ok('no gates from layers that report none', len(res['return_gates']) == 0)
    if 'return_perturbations' in res:
        env.ok('no perturbations', len(res['return_perturbations']) == 0)
    if 'return_zassenhaus' in res:
        env.ok('layer state at entry of every step', list(res['return_zassenhaus']) == [l[3] for l in log])


def special(env, kind, nsteps):
    """layers that return more than a unitary"""
    n = 1
    ot, op = env.mod('opt_tools'), env.mod('optimizers')
    W = env.matrix('W', 2, kind='unitary')
    dev = env.qml.device('default.qubit', wires=n)
    spec = [('Z', (0,)), ('X', (0,))]
    obs = lib.obs_list(env, spec)
    mats = lib.obs_mats(env, spec, n)
    log = []
    base = ot.SquaredLieAlgebraLayer if kind == 'commute' else ot.AdaptVQELayer

    class Special(base):
        def __call__(self, circuit_unitary, *a, **k):
            R = env.matrix('R%d' % len(log), 2, kind='unitary')
            x = [('X', 0), len(log)] if kind == 'commute' else ['p%d' % len(log)]
            log.append((circuit_unitary, R, k.get('params'), k.get('optimizer'), k.get('commute'), x))
            return R, x
    kw = {'commute': True, 'return_gates': True} if kind == 'commute' else {}
    start = ['start']
    if kind == 'adapt':
        def circuit(params, **k):
            env.qml.QubitUnitary(W, wires=[0])
            return env.qml.state()
    else:
        circuit = lib.unitary_circuit(env, W, n)
    r = op.approximate_lie_optimizer(circuit, start, obs, dev, [Special(dev, obs)], nsteps=nsteps, tol=None,
                                     return_unitary=True, **kw)
    if not isinstance(r, tuple) or len(r) != 2 + len(kw) // 2:
        env.fail('one result per requested flag')
        return
    us = [W] + [l[1] for l in log]
    env.ok('one call per step', len(log) == nsteps)
    for s in range(nsteps):
        env.eq('input of step %d' % s, log[s][0], us[s])
        env.ok('the parameter-shift optimiser is handed to the layer', log[s][3] is op.parameter_shift_optimizer)
        if kind == 'adapt':
            env.ok('parameters of step %d are those of the step before' % s,
                   log[s][2] == (start if s == 0 else log[s - 1][5]))
        else:
            env.ok('the layer is asked to commute', log[s][4] is True)
    env.ok('lengths', len(r[0]) == nsteps + 1 and len(r[1]) == nsteps + 1)
    for k in range(nsteps + 1):
        env.eq('cost %d' % k, r[0][k], lib.cost(env, us[k], mats))
        env.eq('unitary %d' % k, r[1][k], us[k])
    if kind == 'commute':
        env.ok('gates of every step, in order', list(r[2]) == [l[5] for l in log])
    env.out('costs', r[0])


def perturbed(env, nsteps, first=9):
    """a run that is stuck from the start: records of perturbed steps"""
    n = 1
    ot, op = env.mod('opt_tools'), env.mod('optimizers')
    dev = env.qml.device('default.qubit', wires=n)
    spec = [('Z', (0,)), ('Y', (0,))]
    obs = lib.obs_list(env, spec)
    mats = lib.obs_mats(env, spec, n)
    log = []

    class Any(ot.LieLayer):
        def __call__(self, circuit_unitary, *a, **k):
            i = len(log)
            log.append(env.unitary2('R%d' % i) if i >= first else lib.eye(env, 2))
            return log[-1]

        def __repr__(self):
            return 'layer'
    names = ['return_state', 'return_omegas', 'return_unitary', 'return_perturbations']
    flags = [(nm, env.bool(nm)) for nm in names]
    kw = {nm: True for nm, f in flags if f}
    r = op.approximate_lie_optimizer(lib.unitary_circuit(env, lib.eye(env, 2), n), [], obs, dev, [Any(dev, obs, n)],
                                     nsteps=nsteps, tol=9.0, perturb=True, **kw)
    res = unpack(env, r, flags, None)
    if res is None:
        return
    us = [lib.eye(env, 2)] + log
    env.ok('one layer call per step', len(log) == nsteps and len(res['costs']) == nsteps + 1)
    for k in range(nsteps + 1):
        env.eq('cost %d' % k, res['costs'][k], lib.cost(env, us[k], mats))
    if 'return_state' in res:
        env.ok('one state per step and the initial one', len(res['return_state']) == nsteps + 1)
        for k in range(nsteps + 1):
            env.eq('state %d' % k, res['return_state'][k], lib.col(us[k]))
    if 'return_unitary' in res:
        env.ok('one unitary per step and the initial one', len(res['return_unitary']) == nsteps + 1)
        for k in range(nsteps + 1):
            env.eq('unitary %d' % k, res['return_unitary'][k], us[k])
    if 'return_omegas' in res:
        env.ok('directions once per step', len(res['return_omegas']) == nsteps)
        for k in range(nsteps):
            for w in 'IXYZ':
                P = lib.word(env, w)
                t = 0
                for O in mats:
                    t = t + lib.bracket(env, lib.col(us[k + 1]), P @ O - O @ P).imag
                env.eq('direction %s of step %d' % (w, k), res['return_omegas'][k][w], t / 2)
    if 'return_perturbations' in res:
        env.ok('perturbed steps in order', list(res['return_perturbations']) == list(range(first, nsteps)))
    env.out('costs', list(res['costs']))


def exact(env, n, spec, nsteps, limit=None):
    op = env.mod('optimizers')
    if limit:
        env.let_limit(limit)
    W = env.matrix('W', 2 ** n, kind='unitary')
    eta = env.real('eta', 0, 1)
    dev = env.qml.device('default.qubit', wires=n)
    obs = lib.obs_list(env, spec)
    mats = lib.obs_mats(env, spec, n)
    pert = env.bool('perturbation')
    flags = [('return_state', env.bool('return_state')),
             ('return_perturbations', pert and env.bool('return_perturbations')),
             ('return_unitary', env.bool('return_unitary'))]
    kw = {nm: True for nm, f in flags if f}
    circuit = lib.unitary_circuit(env, W, n)
    r = op.exact_lie_optimizer(circuit, [], obs, dev, nsteps=nsteps, eta=eta, perturbation=pert, **kw)
    res = unpack(env, r, flags, None)
    if res is None:
        return
    ref, rst, ru = op.exact_lie_optimizer(circuit, [], obs, dev, nsteps=nsteps, eta=eta, return_state=True,
                                          return_unitary=True)
    env.eq('asking for more does not change the costs', list(res['costs']), list(ref))
    env.ok('one cost per step and the initial one', len(ref) == nsteps + 1 and len(rst) == nsteps + 1)
    for k in range(nsteps + 1):
        t = 0
        for O in mats:
            t = t + env.expect(rst[k], O)
        env.eq('cost %d is the expectation in state %d' % (k, k), ref[k], t)
    env.eq('initial state', rst[0], lib.col(W))
    env.eq('the returned unitary prepares the last state', lib.col(ru), rst[nsteps])
    if 'return_state' in res:
        env.eq('states', list(res['return_state']), list(rst))
    if 'return_unitary' in res:
        env.eq('unitary', res['return_unitary'], ru)
    if 'return_perturbations' in res:
        env.ok('no perturbation in the warm-up', len(res['return_perturbations']) == 0)
    env.out('costs', list(ref))


def exact_long(env, nsteps):
    """perturbations: the results still belong together"""
    n = 1
    op = env.mod('optimizers')
    env.let_limit(12)
    W = env.matrix('W', 2, kind='unitary')
    tol = env.real('tol', 0, 0.5)
    dev = env.qml.device('default.qubit', wires=n)
    spec = [('Z', (0,))]
    mats = lib.obs_mats(env, spec, n)
    r = op.exact_lie_optimizer(lib.unitary_circuit(env, W, n), [], lib.obs_list(env, spec), dev, nsteps=nsteps, eta=0.5,
                               tol=tol, perturbation=True, return_state=True, return_perturbations=True,
                               return_unitary=True)
    if not isinstance(r, tuple) or len(r) != 4:
        env.fail('one result per requested flag')
        return
    costs, states, perts, U = r
    env.ok('one cost and state per step', len(costs) == len(states))
    env.ok('perturbation steps are steps of the run', all(0 <= p < len(costs) - 1 for p in perts) and
           list(perts) == sorted(set(perts)))
    for k in range(len(costs)):
        env.eq('cost %d is the expectation in state %d' % (k, k), costs[k], env.expect(states[k], mats[0]))
    env.eq('the returned unitary prepares the last recorded state', lib.col(U), states[-1])


def shift(env, n, nsteps, shape):
    op = env.mod('optimizers')
    qml = env.qml
    th = [env.angle('t%d' % i, unit=None) if False else env.real('t%d' % i) for i in range(n)]
    params = [[x] for x in th] if shape == 'nested' else list(th)
    eta = env.choice('eta', [0.1, 0.25])

    def circuit(p, **k):
        for i in range(n):
            x = p[i][0] if shape == 'nested' else p[i]
            qml.RY(x, wires=i)
        if n > 1:
            qml.CNOT(wires=[0, 1])
    spec = [('Z', (0,)), ('X', (n - 1,))]
    obs = lib.obs_list(env, spec)
    mats = lib.obs_mats(env, spec, n)
    dev = qml.device('default.qubit', wires=n)
    flags = [('return_state', env.bool('return_state')), ('return_params', env.bool('return_params'))]
    r = op.parameter_shift_optimizer(circuit, params, obs, dev, nsteps=nsteps, eta=eta, tol=0.,
                                     **{nm: True for nm, f in flags if f})
    res = unpack(env, r, flags, None)
    if res is None:
        return
    env.ok('one cost per step and the initial one', len(res['costs']) == nsteps + 1)

    def state(p):
        psi = env.arr([1] + [0] * (2 ** n - 1))
        for i in range(n):
            x = p[i][0] if shape == 'nested' else p[i]
            c, s = env.cos(x / 2), env.sin(x / 2)
            psi = env.apply(psi, env.arr([[c, -1 * s], [s, c]]), [i], n)
        if n > 1:
            psi = env.apply(psi, env.arr([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]]), [0, 1], n)
        return psi

    # the reference run: gradient descent on the summed expectation
    cost_fn = qml.ExpvalCost(circuit, qml.Hamiltonian([1.0, 1.0], lib.obs_list(env, spec)), dev)
    opt = qml.GradientDescentOptimizer(eta)
    p = params
    if 'return_params' in res:
        env.ok('one parameter vector per step and the initial one', len(res['return_params']) == nsteps + 1)
    if 'return_state' in res:
        env.ok('one state per step and the initial one', len(res['return_state']) == nsteps + 1)
    for k in range(nsteps + 1):
        psi = state(p)
        t = 0
        for O in mats:
            t = t + env.expect(psi, O)
        env.eq('cost %d' % k, res['costs'][k], t)
        if 'return_params' in res:
            env.eq('parameters %d' % k, list(res['return_params'][k]), list(p))
        if 'return_state' in res:
            env.eq('state %d' % k, res['return_state'][k], psi)
        if k < nsteps:
            p = opt.step(cost_fn, p)
    env.out('costs', list(res['costs']))


OPTIONS = {'exact_long': {'skip_lets': True, 'witness': 0}}


def scenarios(tier):
    Z, X = ('Z', (0,)), ('X', (0,))
    out = [('layers_n1_s1', approx, dict(n=1, spec=[Z, X], steps=[1], counts=[1, 2], all_flags=True)),
           ('layers_n1_s2', approx, dict(n=1, spec=[Z, X], steps=[2], counts=[1, 3], all_flags=True)),
           ('layers_n1_s3', approx, dict(n=1, spec=[Z], steps=[3], counts=[2], all_flags=True)),
           ('layers_n1_s4', approx, dict(n=1, spec=[Z], steps=[4], counts=[1, 2, 3], all_flags=False)),
           ('layers_n2', approx, dict(n=2, spec=[('ZX', (1, 0)), Z], steps=[2, 3], counts=[1, 2], all_flags=False)),
           ('layers_perturbed', perturbed, dict(nsteps=11)),
           ('layers_commute', special, dict(kind='commute', nsteps=2)),
           ('layers_adapt', special, dict(kind='adapt', nsteps=3)),
           ('exact_n1_s1', exact, dict(n=1, spec=[Z, X], nsteps=1, limit=12)),
           ('exact_n1_s2', exact, dict(n=1, spec=[Z], nsteps=2, limit=12)),
           ('exact_n2_s1', exact, dict(n=2, spec=[('ZX', (1, 0)), Z], nsteps=1, limit=12)),
           ('exact_perturbed_s5', exact_long, dict(nsteps=5)), ('exact_perturbed_s6', exact_long, dict(nsteps=6)),
           ('shift_n1_s1', shift, dict(n=1, nsteps=1, shape='flat')),
           ('shift_n1_s3', shift, dict(n=1, nsteps=3, shape='flat')),
           ('shift_n2_s2', shift, dict(n=2, nsteps=2, shape='flat')),
           ('shift_nested', shift, dict(n=1, nsteps=2, shape='nested'))]
    if tier == 'thorough':
        out += [('layers_n1_s6', approx, dict(n=1, spec=[Z, X], steps=[5, 6], counts=[1, 2, 3], all_flags=False)),
                ('layers_n2_all', approx, dict(n=2, spec=[Z, ('ZX', (1, 0))], steps=[3], counts=[2], all_flags=True)),
                ('layers_adapt_5', special, dict(kind='adapt', nsteps=5)),
                ('exact_perturbed_s8', exact_long, dict(nsteps=8)),
                ('exact_n1_s3', exact, dict(n=1, spec=[Z, X], nsteps=3, limit=12)),
                ('shift_n2_s3', shift, dict(n=2, nsteps=3, shape='flat'))]
    return out
