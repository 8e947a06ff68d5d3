"""C13: choice of the direction in the greedy layers."""
import itertools
from . import lib

BOUNDS = {'quick': 'squared-gradient layer on 1-2 qubits (arbitrary unitary), up to three calls from unrelated unitaries; '
                   'commuting mode on 1-2 qubits (real orthogonal unitary), arbitrary optimiser result; su(8) '
                   'layer on 3 qubits and the two-qubit step of the Zassenhaus layer on 3 qubits (real orthogonal unitary); '
                   '1-2 observables; on 3 and 4 qubits the squared-gradient layer and the commuting mode also on one-angle '
                   'families through a GHZ or tilted product state (the commuting mode there with any choice of disjoint edges)',
          'thorough': 'as quick with complex unitaries on three qubits and more observables'}
ASSUMPTIONS = ['ties may be broken either way; with all gradients zero the direction is not constrained',
               'the optimiser of the commuting mode returns arbitrary parameters']


def catalogue(n, weights):
    return [(w, q) for k in weights for w in lib.words(k) for q in itertools.combinations(range(n), k)]


def gradients(env, psi, mats, Ps):
    out = []
    for P in Ps:
        t = 0
        for O in mats:
            t = t + lib.bracket(env, psi, P @ O - O @ P).imag
        out.append(env.abs(t))
    return out


def trace(A):
    t = 0
    for i in range(A.shape[0]):
        t = t + A[i, i]
    return t


def check_choice(env, label, U, W, mats, cat, n, excluded=None, explicit=False):
    """U is W rotated, by the best angle, about a word of largest gradient; returns the index of the word"""
    N = 2 ** n
    Ps = [lib.placed(env, w, q, n) for w, q in cat]
    psi = lib.col(W)
    om = gradients(env, psi, mats, Ps)
    allowed = [k for k in range(len(cat)) if k != excluded]
    if not env.symbolic:
        env.assume(max(om[k] for k in allowed) > 1e-4)
    R = U @ lib.dag(W) if explicit else env.left_factor(U, W)
    I = lib.eye(env, N)
    c = trace(R) / N
    conds, hits = [], []
    for k in allowed:
        s = 1j * trace(Ps[k] @ R) / N
        e = env.equal(R, c * I - 1j * s * Ps[k])
        if e is False:
            continue
        top = env.all([om[k] >= om[j] - (0 if env.symbolic else 1e-7) for j in allowed])
        hits.append((k, s, e))
        conds.append(top if e is True else env.all([e, top]))
    sure = [i for i, h in enumerate(hits) if h[2] is True]
    conds = [conds[i] for i in sure] or conds       # enough if one of the certain ones is the steepest
    env.ok(label, env.any(conds) if conds else False)
    if len(sure) != 1:
        return None
    k, s, _ = hits[sure[0]]
    P = Ps[k]
    b = d = 0
    for O in mats:
        b = b + (env.expect(psi, O) - lib.bracket(env, psi, P @ O @ P).real) / 2
        d = d + (1j * lib.bracket(env, psi, P @ O - O @ P)).real / 2
    b, d = env.name(b), env.name(d)
    env.eq(label + ': the angle is the best one', b * (c * c - s * s) + d * 2 * c * s, -1 * env.abs(b + 1j * d))
    return k


def greedy(env, kind, n, spec, calls=1, unitary='unitary', first=None, start=None, rotation=None, **kw):
    ot = env.mod('opt_tools')
    env.linear_abs()
    dev = env.qml.device('default.qubit', wires=n)
    obs, mats = lib.obs_list(env, spec), lib.obs_mats(env, spec, n)
    make = {'squared': ot.SquaredLieAlgebraLayer, 'su8': ot.SU8_AlgebraLayer, 'zassenhaus': ot.ZassenhausLayer}[kind]
    weights = {'squared': [1, 2], 'zassenhaus': [2]}.get(kind) or [
        k for k, f in ((1, kw.get('add_su2', True)), (2, kw.get('add_su4', True)), (3, True)) if f]
    if kw.get('add_su2') and kind == 'zassenhaus':
        weights = [1, 2]
    layer = make(dev, obs, **kw)
    cat = catalogue(n, weights)
    prev = None
    for c in range(calls):
        if first and c == 0:        # a fixed first call: rotations by the angle of (3, 4, 5)
            W = lib.eye(env, 2 ** n)
            for q in first:
                W = env.embed(env.arr([[0.6, -0.8], [0.8, 0.6]]), (q,), n) @ W
            env.out('first cost', lib.cost(env, layer(W), mats))
            continue
        W = lib.family(env, start, rotation, n, 't%d' % c) if start else env.matrix('W%d' % c, 2 ** n, kind=unitary)
        U = layer(W)
        env.out('cost %d' % c, lib.cost(env, U, mats))
        prev = check_choice(env, 'call %d rotates about the steepest word' % (c + 1), U, W, mats, cat, n,
                            prev if kind == 'squared' else None, explicit=start is not None)
        if prev is None:
            return


def selection(env, edges):
    """some non-empty choice of edges without common qubits (what get_commuting_set does is C20)"""
    edges = [tuple(e) for e in edges]
    out, used = [], set()
    for i, e in enumerate(edges):
        if not used & set(e) and (env.bool('pick%d' % i) if out or i < len(edges) - 1 else True):
            out.append(e)
            used |= set(e)
    return out


def commuting(env, n, spec, unitary='orthogonal', start=None, rotation=None):
    ot = env.mod('opt_tools')
    if start:
        ot.get_commuting_set = lambda edges, *a, **k: selection(env, edges)
    env.linear_abs()
    qml = env.qml
    dev = qml.device('default.qubit', wires=n)
    obs, mats = lib.obs_list(env, spec), lib.obs_mats(env, spec, n)
    W = lib.family(env, start, rotation, n, 't') if start else env.matrix('W', 2 ** n, kind=unitary)
    layer = ot.SquaredLieAlgebraLayer(dev, obs)
    seen = []

    def optimizer(circuit, params, observables, device=None, **kw):
        final = [env.angle('p%d' % i) for i in range(len(params))]
        x = [env.angle('x%d' % i) for i in range(len(params))]

        def full(p):
            circuit(p)
            return qml.state()
        prepared = qml.QNode(full, dev)(x)
        seen.append((circuit, list(params), list(observables), device, kw, final, x, prepared))
        return [0.0], [list(params), [0.7] * len(params), final]

    r = layer(W, commute=True, optimizer=optimizer)
    if not isinstance(r, tuple) or len(r) != 2 or len(seen) != 1:
        env.fail('a unitary and its gates, from one call of the optimiser')
        return
    U, gates = r
    gates = [(tuple(k), t) for k, t in gates]
    env.out('gates', [list(k) for k, t in gates])
    cat = catalogue(n, [1, 2])
    index = {(w,) + q: i for i, (w, q) in enumerate(cat)}
    if not gates or not all(k in index for k, t in gates):
        env.fail('non-empty list of one- and two-qubit words')
        return
    circuit, params, observables, device, kw, final, x, prepared = seen[0]
    if len(final) != len(gates):
        env.fail('one parameter per gate')
        return
    env.eq('angles are the last parameters', [t for k, t in gates], final)
    env.ok('the given observables are optimised', len(observables) == len(obs) and all(
        a is b for a, b in zip(observables, obs)))
    env.ok('parameters are asked for', kw.get('return_params') is True)
    env.ok('one set of letters', len(set(k[0] for k, t in gates)) == 1)
    qs = [q for k, t in gates for q in k[1:]]
    env.ok('disjoint qubits', len(set(qs)) == len(qs))
    Ps = [lib.placed(env, w, q, n) for w, q in cat]
    om = gradients(env, lib.col(W), mats, Ps)
    for k, t in gates:
        v = om[index[k]]
        env.ok('gradient of %s within tolerance of the best' % (k,), env.all(
            [om[j] - v <= 1e-3 + 2e-5 * om[j] + (0 if env.symbolic else 1e-8) for j in range(len(cat))]))
    V = W
    psi = lib.col(W)
    for i, (k, t) in enumerate(gates):
        P = Ps[index[k]]
        V = (env.cos(t / 2) * lib.eye(env, 2 ** n) - 1j * env.sin(t / 2) * P) @ V
        psi = env.cos(x[i] / 2) * psi - 1j * env.sin(x[i] / 2) * (P @ psi)
    env.eq('the gates reproduce the unitary', U, V)
    env.eq('the optimised circuit applies the gates to the unitary', prepared, psi)


OPTIONS = {'greedy': {'skip_lets': True}, 'commuting': {'skip_lets': True}}


def scenarios(tier):
    Z, X, Z1 = ('Z', (0,)), ('X', (0,)), ('Z', (1,))
    out = [('squared_n1', greedy, dict(kind='squared', n=1, spec=[Z], calls=3)),
           ('squared_n1_two', greedy, dict(kind='squared', n=1, spec=[Z, X], calls=2)),
           ('squared_n2', greedy, dict(kind='squared', n=2, spec=[Z1])),
           ('squared_n2_pair', greedy, dict(kind='squared', n=2, spec=[('XY', (1, 0))])),
           ('squared_n2_calls', greedy, dict(kind='squared', n=2, spec=[('ZZ', (0, 1))], calls=2, unitary='orthogonal')),
           ('su8_n3', greedy, dict(kind='su8', n=3, spec=[('Z', (1,))], unitary='orthogonal')),
           ('su8_n3_triples', greedy, dict(kind='su8', n=3, spec=[('XX', (2, 0))], add_su2=False, add_su4=False,
                                           unitary='orthogonal')),
           ('su8_n3_calls', greedy, dict(kind='su8', n=3, spec=[('Z', (1,))], unitary='orthogonal', calls=2, first=(1,))),
           ('su8_n3_triples_calls', greedy, dict(kind='su8', n=3, spec=[('ZZ', (0, 2))], unitary='orthogonal', calls=2, first=(0, 2),
                                                 add_su2=False, add_su4=False)),
           ('zassenhaus_n3', greedy, dict(kind='zassenhaus', n=3, spec=[('ZZ', (0, 2))], unitary='orthogonal')),
           ('zassenhaus_n3_su2', greedy, dict(kind='zassenhaus', n=3, spec=[('Z', (2,))], unitary='orthogonal', add_su2=True)),
           ('commuting_n1', commuting, dict(n=1, spec=[Z, X])),
           ('commuting_n2', commuting, dict(n=2, spec=[Z, Z1])),
           ('commuting_n2_pair', commuting, dict(n=2, spec=[('ZZ', (0, 1))])),
           ('commuting_n3_ghz', commuting, dict(n=3, spec=[('Y', (0,)), ('Y', (2,))], start='ghz', rotation=('X', (0,)))),
           ('commuting_n4_ghz', commuting, dict(n=4, spec=[('Y', (0,)), ('Y', (3,))], start='ghz', rotation=('Z', (1,)))),
           ('squared_n3_tilt', greedy, dict(kind='squared', n=3, spec=[('ZX', (2, 0)), ('Z', (1,))], start='tilt', rotation=('YZ', (0, 2)))),
           ('squared_n4_ghz', greedy, dict(kind='squared', n=4, spec=[('ZX', (3, 0))], start='ghz', rotation=('YX', (1, 3))))]
    if tier == 'thorough':
        out += [('commuting_n2_pair_complex', commuting, dict(n=2, spec=[('ZZ', (0, 1))], unitary='unitary')),
                ('squared_n2_two', greedy, dict(kind='squared', n=2, spec=[Z, ('XY', (1, 0))], calls=2)),
                ('squared_n3', greedy, dict(kind='squared', n=3, spec=[('Z', (2,))])),
                ('su8_n3_two', greedy, dict(kind='su8', n=3, spec=[('Z', (1,)), ('XX', (2, 0))])),
                ('zassenhaus_n3_two', greedy, dict(kind='zassenhaus', n=3, spec=[('ZZ', (0, 2)), X])),
                ('commuting_n2_complex', commuting, dict(n=2, spec=[Z, Z1], unitary='unitary')),
                ('commuting_n3', commuting, dict(n=3, spec=[('ZZ', (0, 1)), ('ZZ', (1, 2))]))]
    return out
