"""C32: a step of the stochastic layer, whatever direction its algebra draws."""
import itertools
from . import lib
from .c11 import omega

BOUNDS = {'quick': '1-3 qubits, every word of weight one and two on every ordered tuple of qubits as the draw, arbitrary unitary and '
                   'learning rate in [0, 1], 1-2 observables (Pauli words, arbitrary Hermitian), one call, and two calls with any two draws '
                   'from unrelated unitaries, eta set through set_eta, unitarity check on and off',
          'thorough': 'as quick with two draws on 3 qubits and one on 4 qubits'}
ASSUMPTIONS = ['the draw itself is not implemented in the repository (get_random_direction_and_qubits raises); the scenario supplies an '
               'arbitrary one through the same methods of the algebra']


def draws(n):
    return [(w, q) for k in (1, 2) if k <= n for w in lib.words(k) for q in itertools.permutations(range(n), k)]


def stochastic(env, n, spec, calls=1, herm=None, set_eta=False, check=False, only=None):
    ot = env.mod('opt_tools')
    eta = env.real('eta', 0, 1)
    dev = env.qml.device('default.qubit', wires=n)
    obs, mats = lib.obs_list(env, spec), lib.obs_mats(env, spec, n)
    if herm:
        A = env.matrix('A', 2 ** len(herm), kind='hermitian')
        obs.append(env.qml.Hermitian(A, wires=list(herm)))
        mats.append(env.embed(A, herm, n))
    kw = {'unitary_error_check': True} if check else {}
    layer = ot.StochasticLieAlgebraLayer(dev, obs, eta=0.25 if set_eta else eta, **kw)
    if set_eta:
        layer.set_eta(eta)
    given = []

    def draw(*a, **k):
        given.append(env.choice('draw %d' % len(given), only or draws(n)))
        w, q = given[-1]
        layer.lastate.add_pauli(w, q)
        return w, q
    layer.lastate.get_random_direction_and_qubits = draw
    for c in range(calls):
        V = env.matrix('U%d' % c, 2 ** n, kind='unitary')
        keep = V.copy()
        got = layer(V)
        env.ok('one draw per call', len(given) == c + 1)
        w, q = given[-1]
        P = lib.placed(env, w, q, n)
        psi = lib.col(keep)
        W = keep
        for O in mats:
            W = env.expm(-1 * eta / 2 ** n * omega(env, psi, P, O) * P) @ W
        env.out('unitary %d' % c, got)
        env.eq('call %d steps along the drawn word' % (c + 1), got, W)
        env.eq('the argument is unchanged', V, keep)
        env.ok('the draw can be read off the layer', layer.current_direction == w and
               tuple(int(x) for x in layer.current_qubits) == q)


def scenarios(tier):
    Z, X, ZZ, XY = ('Z', (0,)), ('X', (0,)), ('ZZ', (0, 1)), ('XY', (1, 0))
    some = [('Z', (1,)), ('XY', (0, 1)), ('XY', (1, 0)), ('YX', (0, 1))]
    far = [('Y', (2,)), ('XZ', (2, 0)), ('XZ', (0, 2)), ('YY', (1, 2))]
    out = [('n1', stochastic, dict(n=1, spec=[Z], calls=2)), ('n1_two', stochastic, dict(n=1, spec=[Z, X])),
           ('n1_hermitian', stochastic, dict(n=1, spec=[], herm=(0,))),
           ('n2', stochastic, dict(n=2, spec=[XY])), ('n2_two', stochastic, dict(n=2, spec=[ZZ, ('Y', (1,))])),
           ('n2_calls', stochastic, dict(n=2, spec=[('YZ', (1, 0))], calls=2, only=some)),
           ('n2_hermitian', stochastic, dict(n=2, spec=[], herm=(1, 0), only=some)),
           ('n3', stochastic, dict(n=3, spec=[('XZ', (2, 0))])),
           ('set_eta', stochastic, dict(n=1, spec=[Z], set_eta=True)),
           ('n1_check', stochastic, dict(n=1, spec=[Z], check=True, only=[('X', (0,)), ('Y', (0,))]))]
    if tier == 'thorough':
        out += [('n3_calls', stochastic, dict(n=3, spec=[('XZ', (2, 0)), ('Y', (1,))], calls=2, only=far)),
                ('n4', stochastic, dict(n=4, spec=[('XZ', (3, 0))]))]
    return out
