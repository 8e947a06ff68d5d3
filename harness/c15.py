"""C15: adaptive VQE."""
from . import lib
from .c13 import gradients

BOUNDS = {'quick': '2 and 3 qubits, arbitrary (2) or real orthogonal (3, 4) current unitary, 1-2 observables, arbitrary result of '
                   'the optimiser; one call, and two calls from unrelated unitaries on 2 qubits; an arbitrary unitary in the '
                   'fifth (2 qubits) or fourth (3 qubits) call after calls at a fixed state, earlier angles zero',
          'thorough': 'as quick with three calls on 2 qubits, complex unitaries and two calls on 3 qubits, a pair on 4 qubits'}
ASSUMPTIONS = ['the optimiser handed to the layer returns arbitrary parameters of the shape it was given',
               'ties may be broken either way']


def candidates(n):
    """(word, place): qubit tuples and the parameter index of each rotation"""
    out = {}
    for w in lib.words(1):
        out[(w, 'single')] = [((i,), i) for i in range(n)]
    even = [((i, i + 1), k) for k, i in enumerate(range(0, n - 1, 2))]
    odd = [((i, i + 1), k) for k, i in enumerate(range(1, n - 1, 2))] + [((0, n - 1), n - 1)]
    for w in lib.words(2):
        out[(w, 'even')] = even
        out[(w, 'odd')] = odd
    return out


def ansatz(env, layers, params, n, V=None):
    """unitary of the ansatz (Hadamards and the layers)"""
    N = 2 ** n
    if V is None:
        h = 0.7071067811865476 if not env.symbolic else 1 / env.sqrt(2)
        H = env.arr([[h, h], [h, -1 * h]])
        V = lib.eye(env, N)
        for q in range(n):
            V = env.embed(H, (q,), n) @ V
    for (w, place), row in zip(layers, params):
        for q, i in place:
            P = lib.placed(env, w, q, n)
            t = row[i]
            V = env.cos(t / 2) * V - 1j * env.sin(t / 2) * (P @ V)
    return V


def adapt(env, n, spec, calls=1, unitary='unitary', history=None):
    ot = env.mod('opt_tools')
    env.linear_abs()
    qml = env.qml
    dev = qml.device('default.qubit', wires=n)
    obs, mats = lib.obs_list(env, spec), lib.obs_mats(env, spec, n)
    layer = ot.AdaptVQELayer(dev, obs)
    cand = candidates(n)
    chosen, prev_word, params, base = [], None, [], None
    for c in range(calls):
        W = lib.prepared(env, history, n) if history and c < calls - 1 else env.matrix('W%d' % c, 2 ** n, kind=unitary)
        seen = []

        def optimizer(circuit, params, observables, device=None, **kw):
            def some(p):        # with a history: arbitrary for the newest layer, zero for the earlier ones
                return [[0.0 if history and j < len(params) - 1 else env.angle('%s%d_%d_%d' % (p, c, j, i))
                         for i in range(len(row))] for j, row in enumerate(params)]
            final, x = some('p'), some('x')

            def full(p):
                circuit(p)
                return qml.state()
            seen.append(([list(r) for r in params], list(observables), kw, final, x, qml.QNode(full, dev)(x)))
            return [0.0], [env.np.array([[0.7] * len(r) for r in params]), env.np.array(final)]
        given = [list(r) for r in params]
        r = layer(W, params=params, optimizer=optimizer)
        tag = 'call %d: ' % (c + 1)
        if not isinstance(r, tuple) or len(r) != 2 or len(seen) != 1:
            env.fail(tag + 'a unitary and parameters, from one call of the optimiser')
            return
        U, new = r
        start, observables, kw, final, x, prepared = seen[0]
        env.ok(tag + 'one row of parameters per layer', len(start) == len(given) + 1 and all(
            len(row) == n for row in start))
        env.eq(tag + 'earlier parameters are handed on', start[:len(given)], given)
        env.ok(tag + 'the given observables are optimised', len(observables) == len(obs) and all(
            a is b for a, b in zip(observables, obs)))
        env.ok(tag + 'parameters are asked for', kw.get('return_params') is True)
        env.eq(tag + 'the returned parameters are those of the optimiser', new, final)
        # which layer was appended
        om = {}
        psi = lib.col(W)
        for (w, place), qs in cand.items():
            Ps = [lib.placed(env, w, q, n) for q, i in qs]
            t = 0
            for g in gradients(env, psi, mats, Ps):
                t = t + g
            om[(w, place)] = t
        allowed = [k for k in cand if k[0] != prev_word]
        if not env.symbolic:
            env.assume(max(om[k] for k in allowed) > 1e-4)
        hits, maybe = [], []
        old = ansatz(env, [(k[0], cand[k]) for k in chosen], final, n)
        for k in allowed:
            e = env.equal(U, ansatz(env, [(k[0], cand[k])], final[len(chosen):], n, old))
            if e is False:
                continue
            top = env.all([om[k] >= om[j] - (0 if env.symbolic else 1e-7) for j in allowed])
            if e is True:
                hits.append((k, top))
            else:
                maybe.append(env.all([e, top]))
        conds = [t for k, t in hits] or maybe
        env.ok(tag + 'the steepest layer is appended, and the unitary is that of the ansatz', env.any(conds) if conds
               else False)
        if len(hits) != 1:
            return
        k = hits[0][0]
        chosen.append(k)
        prev_word = k[0]
        V = ansatz(env, [(j[0], cand[j]) for j in chosen], x, n)
        env.eq(tag + 'the optimised circuit is the ansatz', prepared, lib.col(V))
        env.out('unitary %d' % c, U)
        params = new


OPTIONS = {'adapt': {'skip_lets': True}}


def scenarios(tier):
    Z, Z1, ZZ = ('Z', (0,)), ('Z', (1,)), ('ZZ', (0, 1))
    out = [('n2', adapt, dict(n=2, spec=[Z1])), ('n2_two', adapt, dict(n=2, spec=[Z, ('XY', (1, 0))])),
           ('n2_calls', adapt, dict(n=2, spec=[ZZ, ('X', (1,))], calls=2, unitary='orthogonal')),
           ('n2_history', adapt, dict(n=2, spec=[Z, ('X', (1,))], calls=5, unitary='orthogonal', history='tilt')),
           ('n3_history', adapt, dict(n=3, spec=[Z, ('X', (2,))], calls=4, unitary='orthogonal', history='tilt')),
           ('n3', adapt, dict(n=3, spec=[('ZZ', (0, 2))], unitary='orthogonal')),
           ('n3_single', adapt, dict(n=3, spec=[('Z', (1,))], unitary='orthogonal')),
           ('n4', adapt, dict(n=4, spec=[('Z', (3,))], unitary='orthogonal'))]
    if tier == 'thorough':
        out += [('n2_three_calls', adapt, dict(n=2, spec=[('X', (1,))], calls=3, unitary='orthogonal')),
                ('n3_complex', adapt, dict(n=3, spec=[('ZZ', (0, 2)), ('X', (1,))])),
                ('n3_calls', adapt, dict(n=3, spec=[('Z', (1,))], unitary='orthogonal', calls=2)),
                ('n4_pair', adapt, dict(n=4, spec=[('ZZ', (0, 3))], unitary='orthogonal'))]
    return out
