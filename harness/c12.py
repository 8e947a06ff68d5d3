"""C12: a step of the custom-direction layer."""
import itertools
from . import lib
from .c11 import omega

BOUNDS = {'quick': '1-4 qubits, arbitrary unitary, learning rate in [0, 1], 1-2 observables (Pauli words, arbitrary '
                   'Hermitian), subsets of one- and two-qubit words and no choice at all, trotterised or not, two calls',
          'thorough': 'as quick with more observables and words on 3-4 qubits'}
ASSUMPTIONS = ['expm of a matrix that is not a multiple of a word is one uninterpreted function of its entries']


def placements(n, names):
    out = []
    for w in names:
        for q in itertools.combinations(range(n), len(w)):
            out.append((w, q))
    return out


def custom(env, n, spec, trotter, subsets, calls=1, herm=None, limit=8, set_eta=False):
    ot = env.mod('opt_tools')
    if limit:
        env.let_limit(limit)
    U = env.matrix('U', 2 ** n, kind='unitary')
    eta = env.real('eta', 0, 1)
    dev = env.qml.device('default.qubit', wires=n)
    obs, mats = lib.obs_list(env, spec), lib.obs_mats(env, spec, n)
    if herm:
        A = env.matrix('A', 2 ** len(herm), kind='hermitian')
        obs.append(env.qml.Hermitian(A, wires=list(herm)))
        mats.append(env.embed(A, herm, n))
    names = lib.words(1) + lib.words(2)
    d = env.choice('directions', subsets)
    layer = ot.CustomDirectionLieAlgebraLayer(dev, obs, None if d is None else list(d), trotterize=trotter,
                                              eta=0.25 if set_eta else eta)
    if set_eta:
        layer.set_eta(eta)
    chosen = placements(n, [w for w in names if d is None or w in d])
    env.ok('directions of the layer', sorted((k[0],) + tuple(k[1:]) for k in layer.get_lie_algebra_directions_strings())
           == sorted((w,) + q for w, q in chosen))
    Ps = [lib.placed(env, w, q, n) for w, q in chosen]
    V = U
    for c in range(calls):
        got = layer(V)
        psi = lib.col(V)
        W = V
        for O in mats:
            if trotter:
                for P in Ps:
                    W = env.expm(-1 * eta / 2 ** n * omega(env, psi, P, O) * P) @ W
            else:
                A = lib.zeros(env, 2 ** n)
                for P in Ps:
                    A = A + omega(env, psi, P, O) * P
                W = env.expm(-1 * eta / 2 ** n * A) @ W
        env.eq('unitary after call %d' % (c + 1), got, W)
        env.out('unitary %d' % c, got)
        V = env.matrix('V%d' % c, 2 ** n, kind='unitary')


def scenarios(tier):
    Z, X, ZZ, XY = ('Z', (0,)), ('X', (0,)), ('ZZ', (0, 1)), ('XY', (1, 0))
    one = [('X',), ('Z', 'Y'), ('X', 'Y', 'Z'), None]
    two = [('Z',), ('XY',), ('X', 'ZZ'), ('YX', 'XY', 'Y'), None]
    out = []
    for t in (False, True):
        m = 'trotter' if t else 'sum'
        out += [('n1_%s' % m, custom, dict(n=1, spec=[Z], trotter=t, subsets=one, calls=2)),
                ('n1_two_obs_%s' % m, custom, dict(n=1, spec=[Z, X], trotter=t, subsets=one)),
                ('n1_hermitian_%s' % m, custom, dict(n=1, spec=[], herm=(0,), trotter=t, subsets=one)),
                ('n2_%s' % m, custom, dict(n=2, spec=[XY], trotter=t, subsets=two)),
                ('n2_two_obs_%s' % m, custom, dict(n=2, spec=[ZZ, X], trotter=t, subsets=two[:4])),
                ('set_eta_%s' % m, custom, dict(n=1, spec=[X], trotter=t, subsets=[('Y', 'Z')], set_eta=True))]
    out.append(('n2_calls', custom, dict(n=2, spec=[XY], trotter=False, subsets=two[1:3], calls=2)))
    out += [('n3_sum', custom, dict(n=3, spec=[('XZ', (2, 0))], trotter=False, subsets=two, limit=None)),
            ('n3_trotter', custom, dict(n=3, spec=[('XZ', (2, 0))], trotter=True, subsets=[('Z',), ('XY',), ('YY',)], limit=None)),
            ('n3_mixed', custom, dict(n=3, spec=[('XZ', (2, 0))], trotter=False, subsets=[('XX', 'Z', 'YY'), ('YZ', 'X', 'Y')], limit=None)),
           ('n4_sum', custom, dict(n=4, spec=[('XZ', (3, 0))], trotter=False, subsets=[('ZX',), ('Y', 'YY')], limit=None))]
    if tier == 'thorough':
        out += [('n3_two_sum', custom, dict(n=3, spec=[('XZ', (2, 0)), ('Y', (1,))], trotter=False, subsets=two, limit=None)),
                ('n4_three', custom, dict(n=4, spec=[('XZ', (3, 0))], trotter=False, subsets=[('X', 'ZX', 'YY')], limit=None))]
        for t in (False, True):
            m = 'trotter' if t else 'sum'
            out += [('n2_hermitian_%s' % m, custom, dict(n=2, spec=[], herm=(1, 0), trotter=t, subsets=two, limit=None))]
    return out
