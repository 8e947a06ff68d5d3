"""C14: rotosolve."""
import itertools
from . import lib

BOUNDS = {'quick': '1-2 qubits, every Pauli word (weight 1 and 2), 1-2 observables (Pauli words, arbitrary Hermitian), '
                   'arbitrary unitary; the competing angle is arbitrary',
          'thorough': 'as quick with 3 qubits and three-qubit words'}
ASSUMPTIONS = []


def roto(env, n, words, spec, herm=None):
    ot = env.mod('opt_tools')
    ct = env.mod('circuit_tools')
    qml = env.qml
    W = env.matrix('W', 2 ** n, kind='unitary')
    w = env.choice('word', words)
    q = env.choice('qubits', list(itertools.combinations(range(n), len(w))))
    P = lib.placed(env, w, q, n)
    obs, mats = lib.obs_list(env, spec), lib.obs_mats(env, spec, n)
    if herm:
        A = env.matrix('A', 2 ** len(herm), kind='hermitian')
        obs.append(qml.Hermitian(A, wires=list(herm)))
        mats.append(env.embed(A, herm, n))
    dev = qml.device('default.qubit', wires=n)
    r = ot.rotosolve(P, obs, qml.QNode(ct.circuit_observable_from_unitary, dev), W, len(w))
    if not isinstance(r, tuple) or len(r) != 2:
        env.fail('a unitary and an angle')
        return
    U, eta = r
    c, s = env.cos(eta / 2), env.sin(eta / 2)
    env.eq('the returned unitary is the rotation by the returned angle', U, (c * lib.eye(env, 2 ** n) - 1j * s * P) @ W)
    # the cost along the direction is  a + b cos(t) + d sin(t)
    psi = lib.col(W)
    b = d = 0
    for O in mats:
        b = b + (env.expect(psi, O) - lib.bracket(env, psi, P @ O @ P).real) / 2
        d = d + (1j * lib.bracket(env, psi, P @ O - O @ P)).real / 2
    b, d = env.name(b), env.name(d)
    C, S = env.cos(eta), env.sin(eta)
    amp = env.abs(b + 1j * d)
    env.eq('the cost at the returned angle is the minimum', b * C + d * S, -1 * amp)
    x, y = env.real('x', -1, 1), env.real('y', -1, 1)
    env.out('lowest cost', b * C + d * S)
    if env.symbolic:
        env.assume(x * x + y * y == 1)
        env.le('no other angle is better', -1 * amp, b * x + d * y)


def scenarios(tier):
    one, two = lib.words(1), lib.words(2)
    Z, X = ('Z', (0,)), ('X', (0,))
    out = [('n1', roto, dict(n=1, words=one, spec=[Z])), ('n1_two_obs', roto, dict(n=1, words=one, spec=[Z, X])),
           ('n1_hermitian', roto, dict(n=1, words=one, spec=[], herm=(0,))),
           ('n1_repeated', roto, dict(n=1, words=['X'], spec=[Z, Z])),
           ('n2_w1', roto, dict(n=2, words=one, spec=[('XY', (1, 0))])),
           ('n2_w2', roto, dict(n=2, words=two, spec=[('ZX', (0, 1))])),
           ('n2_two_obs', roto, dict(n=2, words=['X', 'ZZ'], spec=[('Z', (1,)), ('XX', (0, 1))])),
           ('n2_hermitian', roto, dict(n=2, words=['Y', 'XZ'], spec=[], herm=(1,)))]
    if tier == 'thorough':
        out += [('n3_w3', roto, dict(n=3, words=['XYZ', 'ZZX'], spec=[('ZX', (2, 1))])),
                ('n3_w2', roto, dict(n=3, words=['XY'], spec=[('ZX', (2, 1)), ('Y', (0,))])),
                ('n2_hermitian2', roto, dict(n=2, words=['Y', 'XZ'], spec=[], herm=(1, 0)))]
    return out
