"""C28: the parameter-shift optimiser descends the gradient of the summed expectation."""
from . import lib

BOUNDS = {'quick': 'circuits of up to 5 gates (RX, RY, RZ, PauliRot, CNOT, CZ, Hadamard, T) on 1-2 qubits with 1-4 parameters: flat, '
                   'nested, shared by several gates, scaled, unused; all angles, all learning rates in [0, 1]; 1-2 steps; '
                   'one to three Pauli observables',
          'thorough': 'as quick with 3 steps on 1 qubit and 3 qubits'}
ASSUMPTIONS = ['PennyLane differentiates exactly; the reference is the parameter-shift rule on the closed-form state']

CIRCUITS = {  # gates: (name, wires, parameter index, factor); parameters are numbered in the order of the nested list
    'single': dict(n=1, k=1, gates=[('RX', (0,), 0, 1)]),
    'two_axes': dict(n=1, k=2, gates=[('RY', (0,), 0, 1), ('RZ', (0,), 1, 1)]),
    'shared': dict(n=1, k=1, gates=[('RX', (0,), 0, 1), ('H', (0,)), ('RY', (0,), 0, 1)]),
    'scaled': dict(n=1, k=2, gates=[('RY', (0,), 0, 2), ('T', (0,)), ('RX', (0,), 1, -1)]),
    'unused': dict(n=1, k=2, gates=[('RY', (0,), 1, 1)]),
    'entangled': dict(n=2, k=2, gates=[('RY', (0,), 0, 1), ('RX', (1,), 1, 1), ('CNOT', (0, 1))]),
    'reversed': dict(n=2, k=2, gates=[('RY', (1,), 0, 1), ('CNOT', (1, 0)), ('RZ', (0,), 1, 1), ('CZ', (0, 1))]),
    'pauli_rot': dict(n=2, k=2, gates=[('RY', (0,), 0, 1), ('XY', (0, 1), 1, 1)]),
    'nested': dict(n=2, k=4, nest=[2, 2], gates=[('RY', (0,), 0, 1), ('RX', (1,), 2, 1), ('CNOT', (0, 1)), ('RY', (1,), 1, 1),
                                                 ('RX', (0,), 3, 1)]),
    'three': dict(n=3, k=3, gates=[('RY', (0,), 0, 1), ('CNOT', (0, 2)), ('RX', (2,), 1, 1), ('RZ', (1,), 2, 1), ('CNOT', (2, 1))]),
}


def nest(flat, shape):
    if shape is None:
        return list(flat)
    out, i = [], 0
    for k in shape:
        out.append(list(flat[i:i + k]))
        i += k
    return out


def unnest(p, shape):
    return [p[i] for i in range(len(p))] if shape is None else [x for q in p for x in q]


def spec_of(n, which):
    return {'one': [('Z', (n - 1,))], 'two': [('Z', (0,)), ('X', (n - 1,))],
            'three': [('Y', (n - 1,)), ('Z', (0,)), ('X', (0,))] if n == 1 else [('ZX', (1, 0)), ('Y', (0,)), ('Z', (1,))],
            'twice': [('Z', (0,)), ('Z', (0,))], 'same object': [('Z', (0,)), ('Z', (0,))]}[which]


def descent(env, name, nsteps, spec):
    d = CIRCUITS[name]
    n, shape = d['n'], d.get('nest')
    op = env.mod('optimizers')
    qml = env.qml
    env.exact_gradient()
    th = [env.angle('t%d' % i) for i in range(d['k'])]
    eta = env.real('eta', 0, 1)
    which = env.choice('observables', spec)
    obs, mats = lib.obs_list(env, spec_of(n, which)), lib.obs_mats(env, spec_of(n, which), n)
    if which == 'same object':
        obs = [obs[0], obs[0]]
    dev = qml.device('default.qubit', wires=n)

    def circuit(p, **k):
        q = unnest(p, shape)
        for g in d['gates']:
            a = q[g[2]] * g[3] if len(g) > 2 else None
            w = list(g[1])
            if g[0] in ('RX', 'RY', 'RZ'):
                getattr(qml, g[0])(a, wires=w)
            elif a is not None:
                qml.PauliRot(a, g[0], wires=w)
            else:
                {'H': qml.Hadamard, 'T': qml.T, 'CNOT': qml.CNOT, 'CZ': qml.CZ}[g[0]](wires=w)

    def state(angles):
        psi = env.arr([1] + [0] * (2 ** n - 1))
        for g, a in zip(d['gates'], angles):
            w = list(g[1])
            if a is not None:
                gen = lib.word(env, g[0][1] if g[0][0] == 'R' else g[0])
                c, s = env.cos(a / 2), env.sin(a / 2)
                M = lib.eye(env, 2 ** len(w)) * c - gen * (s * 1j)
            elif g[0] == 'H':
                r = env.sqrt(0.5)
                M = env.arr([[r, r], [r, -1 * r]])
            elif g[0] == 'T':
                r = env.sqrt(0.5)
                M = env.arr([[1, 0], [0, r + r * 1j]])
            else:
                M = env.arr([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]] if g[0] == 'CNOT' else
                            [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, -1]])
            psi = env.apply(psi, M, w, n)
        return psi

    def value(angles):
        psi = state(angles)
        t = 0
        for O in mats:
            t = t + env.expect(psi, O)
        return t

    def angles_of(q):
        return [q[g[2]] * g[3] if len(g) > 2 else None for g in d['gates']]

    ask = env.choice('asked for', ['parameters', 'parameters and states'])
    r = op.parameter_shift_optimizer(circuit, nest(th, shape), obs, dev, nsteps=nsteps, eta=eta, tol=0., return_params=True,
                                     **({'return_state': True} if ask != 'parameters' else {}))
    costs, ps = r[0], r[-1]
    env.ok('one cost and one parameter vector per step and the initial one', len(costs) == nsteps + 1 and len(ps) == nsteps + 1)
    q = list(th)
    for step in range(nsteps + 1):
        a = angles_of(q)
        env.eq('parameters %d' % step, unnest(ps[step], shape), q)
        env.eq('cost %d' % step, costs[step], value(a))
        if ask != 'parameters':
            env.eq('state %d' % step, r[1][step], state(a))
        if step == nsteps:
            break
        grad = [0] * d['k']
        for k, g in enumerate(d['gates']):
            if len(g) > 2:
                up, down = list(a), list(a)
                up[k], down[k] = a[k] + env.pi / 2, a[k] - env.pi / 2
                grad[g[2]] = grad[g[2]] + (value(up) - value(down)) / 2 * g[3]
        q = [x - eta * y for x, y in zip(q, grad)]
    env.out('costs', list(costs))


def long_run(env, nsteps):
    """many steps, or as many as there are before the cost settles: every one uses the same learning rate"""
    op, qml = env.mod('optimizers'), env.qml
    env.exact_gradient()
    t, eta = env.angle('t'), env.real('eta', 0, 1)
    dev = qml.device('default.qubit', wires=1)

    def circuit(p, **kw):
        qml.RX(p[0], wires=0)

    costs, ps = op.parameter_shift_optimizer(circuit, [t], [qml.PauliZ(0)], dev, nsteps=nsteps, eta=eta, tol=0., return_params=True)
    env.ok('lengths', len(costs) == len(ps) and 5 <= len(costs) <= nsteps + 1)
    q = t
    for i in range(len(costs)):
        env.eq('parameter %d' % i, ps[i][0], q)
        env.eq('cost %d' % i, costs[i], env.cos(q))
        q = q + eta * env.sin(q)
    env.out('steps', [len(costs)])


OPTIONS = {'descent': {'skip_lets': True}, 'long_run': {'skip_lets': True}}


def scenarios(tier):
    out = [('%s_s1' % c, descent, dict(name=c, nsteps=1, spec=['one', 'two', 'three', 'twice', 'same object']))
           for c in ('single', 'two_axes', 'shared', 'scaled', 'unused')]
    out += [('%s_s1' % c, descent, dict(name=c, nsteps=1, spec=['one', 'two', 'three']))
            for c in ('entangled', 'reversed', 'pauli_rot', 'nested')]
    out += [('%s_s2' % c, descent, dict(name=c, nsteps=2, spec=['one', 'two'])) for c in ('single', 'two_axes', 'shared', 'entangled')]
    out += [('long', long_run, dict(nsteps=26 if tier == 'quick' else 60))]
    if tier == 'thorough':
        out += [('single_s3', descent, dict(name='single', nsteps=3, spec=['one', 'two'])),
                ('three_s1', descent, dict(name='three', nsteps=1, spec=['one', 'two', 'three'])),
                ('reversed_s2', descent, dict(name='reversed', nsteps=2, spec=['one', 'two']))]
    return out
