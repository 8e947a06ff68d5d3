"""C05: reported Lie-algebra directions."""
import itertools
from . import lib

BOUNDS = {'quick': '1-3 qubits, 1-2 observables (Pauli words on every wire tuple, arbitrary Hermitian one-qubit '
                   'observables), arbitrary unitary; layer classes on 2-3 qubits',
          'thorough': 'as quick with two-qubit Hermitian observables and 4 qubits'}


def check(env, got, U, mats, n):
    psi = lib.col(U)
    names = lib.words(n, 'IXYZ')
    env.ok('one entry per Pauli word', sorted(got.keys()) == sorted(names))
    for w in names:
        P = lib.word(env, w)
        t = 0
        for O in mats:
            t = t + bracket_im(env, psi, P, O)
        env.eq('direction %s' % w, got[w], t / 2 ** n)


def bracket_im(env, psi, P, O):
    z = lib.bracket(env, psi, P @ O - O @ P)
    return z.imag


def direct(env, n, lens, terms):
    ct = env.mod('circuit_tools')
    U = env.matrix('U', 2 ** n, kind='unitary')
    spec = []
    for i in range(terms):
        k = lens[i % len(lens)]
        w = env.choice('word%d' % i, {1: ['X', 'Y', 'Z'], 2: ['ZZ', 'XY'], 3: ['XYZ']}[k])
        spec.append((w, env.choice('wires%d' % i, list(itertools.permutations(range(n), k)))))
    dev = env.qml.device('default.qubit', wires=n)
    got = ct.get_all_su_n_directions(U, lib.obs_list(env, spec), dev)
    env.out('directions', got)
    check(env, got, U, lib.obs_mats(env, spec, n), n)


def hermitian(env, n, k):
    ct = env.mod('circuit_tools')
    U = env.matrix('U', 2 ** n, kind='unitary')
    wires = env.choice('wires', [list(p) for p in itertools.permutations(range(n), k)])
    A = env.matrix('A', 2 ** k, kind='hermitian')
    dev = env.qml.device('default.qubit', wires=n)
    got = ct.get_all_su_n_directions(U, [env.qml.Hermitian(A, wires=wires)], dev)
    env.out('directions', got)
    check(env, got, U, [env.embed(A, wires, n)], n)


def layers(env, kind, n):
    ot = env.mod('opt_tools')
    U = env.matrix('U', 2 ** n, kind='unitary')
    spec = [('Z', (0,)), ('XY', (n - 1, 0))]
    dev = env.qml.device('default.qubit', wires=n)
    obs = lib.obs_list(env, spec)
    make = {'local1': lambda: ot.LocalLieAlgebraLayer(dev, obs, 1),
            'local2': lambda: ot.LocalLieAlgebraLayer(dev, obs, 2),
            'custom': lambda: ot.CustomDirectionLieAlgebraLayer(dev, obs, ['XX', 'Y']),
            'customall': lambda: ot.CustomDirectionLieAlgebraLayer(dev, obs, None),
            'stochastic': lambda: ot.StochasticLieAlgebraLayer(dev, obs),
            'squared': lambda: ot.SquaredLieAlgebraLayer(dev, obs),
            'adapt': lambda: ot.AdaptVQELayer(dev, obs),
            'su8': lambda: ot.SU8_AlgebraLayer(dev, obs),
            'zassenhaus': lambda: ot.ZassenhausLayer(dev, obs)}
    layer = make[kind]()
    got = layer.get_lie_algebra_directions(U)
    env.out('directions', got)
    check(env, got, U, lib.obs_mats(env, spec, n), n)


OPTIONS = {'layers': {'witness': 2}}


def scenarios(tier):
    out = [('direct_n1', direct, dict(n=1, lens=[1], terms=2)), ('direct_n2', direct, dict(n=2, lens=[1, 2], terms=2)),
           ('direct_n3', direct, dict(n=3, lens=[2], terms=1)),
           ('hermitian_n1', hermitian, dict(n=1, k=1)), ('hermitian_n2', hermitian, dict(n=2, k=1)),
           ('hermitian_n2_k2', hermitian, dict(n=2, k=2))]
    for k in ('local1', 'local2', 'custom', 'customall', 'stochastic', 'squared', 'adapt'):
        out.append(('layer_' + k, layers, dict(kind=k, n=2)))
    for k in ('su8', 'zassenhaus'):
        out.append(('layer_' + k, layers, dict(kind=k, n=3)))
    if tier == 'thorough':
        out += [('direct_n3_t2', direct, dict(n=3, lens=[1, 3], terms=2)), ('hermitian_n3', hermitian, dict(n=3, k=2)),
                ('direct_n4', direct, dict(n=4, lens=[1], terms=1))]
    return out
