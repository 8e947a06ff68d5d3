"""C09: early stopping."""
from . import lib

BOUNDS = {'quick': 'layer-based: every cost history of up to 13 steps (arbitrary rotations), every tolerance in [0, 0.5], '
                   'tolerance absent, perturbation on/off; exact: up to 7 steps from an arbitrary one-qubit unitary; '
                   'parameter shift: up to 6 steps on one parameter',
          'thorough': 'as quick with 16, 9 and 8 steps'}
ASSUMPTIONS = ['agreement within tolerance is |a - b| <= tol; between tol and tol + 2e-5 max(|a|, |b|) (the relative tolerance of the '
               'comparison) either decision is accepted']


def near_far(env, a, b, tol):
    near = env.all([a - b <= tol, b - a <= tol])
    far = env.any([env.all([env.gt(d, tol + 2e-5 * x) for x in (a, -1 * a, b, -1 * b)]) for d in (a - b, b - a)])
    return near, far


def history(env, costs, nsteps, tol, first, lag, stopped_at=None):
    """costs: recorded history; checks that the length is the one the rule demands"""
    n = len(costs) - 1          # steps taken
    env.ok('at most the requested steps', 1 <= n <= nsteps)
    for s in range(n):
        if s < first:
            continue
        near, far = near_far(env, costs[s + 1], costs[s + 1 - lag], tol)
        if s == n - 1 and n < nsteps:
            env.ok('stopping at step %d of %d: costs have converged' % (s, nsteps), env.not_(far))
        elif s < n - 1:
            env.ok('going on after step %d: costs have not converged' % s, env.not_(near) if True else None)
    if n < nsteps:
        env.ok('no stop in the warm-up', n - 1 >= first)


def layer_run(env, nsteps, tolmode, perturb):
    n = 1
    ot, op = env.mod('opt_tools'), env.mod('optimizers')
    dev = env.qml.device('default.qubit', wires=n)
    spec = [('Z', (0,))]
    obs = lib.obs_list(env, spec)
    tol = None if tolmode == 'none' else 0. if tolmode == 'zero' else env.real('tol', 0, 0.5)
    calls = []

    class Rot(ot.LieLayer):
        def __call__(self, circuit_unitary, *a, **k):
            i = len(calls)
            calls.append(i)
            t = env.angle('t%d' % (i if tolmode != 'zero' else i // 8), unit=1)
            c, s = env.cos(t), env.sin(t)
            return env.arr([[c, -1 * s], [s, c]])

        def __repr__(self):
            return 'rotation'
    kw = {} if tolmode == 'default' else {'tol': tol}
    r = op.approximate_lie_optimizer(lib.unitary_circuit(env, lib.eye(env, 2), n), [], obs, dev, [Rot(dev, obs, n)],
                                     nsteps=nsteps, perturb=perturb, return_perturbations=True, return_state=True, **kw)
    if not isinstance(r, tuple) or len(r) != 3:
        env.fail('one result per requested flag')
        return
    costs, states, perts = r
    env.ok('layer calls', len(calls) == len(costs) - 1 == len(states) - 1)
    env.out('steps', len(calls))
    env.out('perturbations', list(perts))
    if tolmode == 'none':
        env.ok('without a tolerance every step is taken', len(calls) == nsteps and len(perts) == 0)
    elif perturb:
        env.ok('with perturbation every step is taken', len(calls) == nsteps)
        for s in range(nsteps):
            if s < 9:
                env.ok('no perturbation in the warm-up (step %d)' % s, s not in perts)
                continue
            near, far = near_far(env, costs[s + 1], costs[s - 4], tol)
            env.ok('perturbation at step %d exactly when converged' % s,
                   env.not_(far) if s in perts else env.not_(near))
        env.ok('steps in order', list(perts) == sorted(set(perts)))
    else:
        env.ok('no perturbation unless asked for', len(perts) == 0)
        history(env, costs, nsteps, tol, 9, 5)


def exact_run(env, nsteps, perturb, words=('Z',)):
    n = 1
    op = env.mod('optimizers')
    env.let_limit(12)
    W = env.matrix('W', 2, kind='unitary')
    tol = env.real('tol', 0, 0.5)
    dev = env.qml.device('default.qubit', wires=n)
    spec = [(w, (0,)) for w in words]
    r = op.exact_lie_optimizer(lib.unitary_circuit(env, W, n), [], lib.obs_list(env, spec), dev, nsteps=nsteps, eta=0.5,
                               tol=tol, perturbation=perturb, return_state=True,
                               **({'return_perturbations': True} if perturb else {}))
    if not isinstance(r, tuple) or len(r) != 2 + bool(perturb):
        env.fail('one result per requested flag')
        return
    costs, states = r[0], r[1]
    env.ok('one state per cost', len(states) == len(costs))
    if not perturb:
        history(env, costs, nsteps, tol, 4, 1)
    else:
        perts = r[2]
        env.ok('with perturbation every step is taken', len(costs) == nsteps + 1)
        for s in range(nsteps - 1):
            if s < 4:
                env.ok('no perturbation in the warm-up (step %d)' % s, s not in perts)
                continue
            near, far = near_far(env, costs[s + 1], costs[s], tol)
            env.ok('perturbation at step %d exactly when converged' % s,
                   env.not_(far) if s in perts else env.not_(near))


def shift_run(env, nsteps, free=False):
    tol = env.real('tol', 0, 0.5)
    if free:
        # a gradient step may lead anywhere, so that every cost history is possible
        count = [0]

        class Anywhere:
            def __init__(self, stepsize=0.01, *a, **k):
                pass

            def step_and_cost(self, fn, params, *a, **k):
                return self.step(fn, params), fn(params)

            def step(self, fn, params, *a, **k):
                count[0] += 1
                return [env.angle('t%d' % count[0], unit=1)]

            def apply_grad(self, grad, params):
                return self.step(None, params)
        env.patch_qml(GradientDescentOptimizer=Anywhere)
        t = env.angle('t', unit=1)
    else:
        t = env.real('t')
    qml = env.qml

    def circuit(p, **k):
        qml.RY(2 * p[0] if free else p[0], wires=0)
    op = env.mod('optimizers')
    dev = qml.device('default.qubit', wires=1)
    r = op.parameter_shift_optimizer(circuit, [t], lib.obs_list(env, [('Z', (0,))]), dev, nsteps=nsteps, eta=0.5,
                                     tol=tol, return_params=True)
    if not isinstance(r, tuple) or len(r) != 2:
        env.fail('one result per requested flag')
        return
    costs, ps = r
    env.ok('one parameter vector per cost', len(ps) == len(costs))
    env.out('steps', len(costs))
    history(env, costs, nsteps, tol, 3, 1)


def exact_fixed(env, nsteps):
    """a learning rate of zero: the cost does not change, and a tolerance of zero stops the run right after the warm-up"""
    op = env.mod('optimizers')
    W = env.matrix('W', 2, kind='unitary')
    dev = env.qml.device('default.qubit', wires=1)
    tol = env.choice('tol', [0., 1e-3, 2.5])
    r = op.exact_lie_optimizer(lib.unitary_circuit(env, W, 1), [], lib.obs_list(env, [('Z', (0,))]), dev, nsteps=nsteps, eta=0., tol=tol)
    env.ok('stops after the warm-up', len(r) == 6)


def shift_fixed(env, nsteps):
    env.exact_gradient()
    op, qml = env.mod('optimizers'), env.qml
    t = env.angle('t')
    tol = env.choice('tol', [0., 1e-3, 2.5])
    dev = qml.device('default.qubit', wires=1)

    def circuit(p, **k):
        qml.RY(p[0], wires=0)
    r = op.parameter_shift_optimizer(circuit, [t], lib.obs_list(env, [('Z', (0,))]), dev, nsteps=nsteps, eta=0., tol=tol)
    env.ok('stops after the warm-up', len(r) == 5)


OPTIONS = {'exact_run': {'skip_lets': True, 'witness': 2}, 'shift_run': {'witness': 2}}


def scenarios(tier):
    d = 0 if tier == 'quick' else 1
    out = []
    for ns in ((9, 10, 11, 13), (9, 10, 11, 13, 16))[d]:
        out.append(('layers_s%d' % ns, layer_run, dict(nsteps=ns, tolmode='tol', perturb=False)))
    out += [('layers_notol', layer_run, dict(nsteps=12, tolmode='none', perturb=False)),
            ('layers_notol_perturb', layer_run, dict(nsteps=12, tolmode='none', perturb=True)),
            ('layers_perturb', layer_run, dict(nsteps=12 + d, tolmode='tol', perturb=True))]
    out += [('layers_zero', layer_run, dict(nsteps=14, tolmode='zero', perturb=False)),
            ('layers_zero_perturb', layer_run, dict(nsteps=14, tolmode='zero', perturb=True)),
            ('exact_zero', exact_fixed, dict(nsteps=7)), ('shift_zero', shift_fixed, dict(nsteps=6))]
    for ns in ((4, 5, 6, 7), (4, 5, 6, 7, 9))[d]:
        out.append(('exact_s%d' % ns, exact_run, dict(nsteps=ns, perturb=False)))
    out += [('exact_two_obs', exact_run, dict(nsteps=6, perturb=False, words=('Z', 'X'))),
            ('exact_perturb', exact_run, dict(nsteps=6 + d, perturb=True))]
    for ns in ((3, 4, 5, 6), (3, 4, 5, 6, 8))[d]:
        out.append(('shift_s%d' % ns, shift_run, dict(nsteps=ns)))
        out.append(('shift_any_s%d' % ns, shift_run, dict(nsteps=ns, free=True)))
    return out
