"""C11: a step of the local Lie-algebra layer."""
import itertools
from . import lib

BOUNDS = {'quick': 'locality 1 on 1-3 qubits, locality 2 on 2 qubits (all 9 words, or any subset of up to 2) and 4 qubits (one word), 1-2 observables '
                   '(Pauli words and arbitrary Hermitian), arbitrary unitary and learning rate in [0, 1], trotterised or '
                   'not, 1-2 calls, eta set through set_eta; the exponential of a sum of words is an uninterpreted function',
          'thorough': 'as quick with locality 1 on 4 qubits, locality 2 on 4 qubits with all words, more observables'}
ASSUMPTIONS = ['expm of a matrix that is not a multiple of a word is one uninterpreted function of its entries']


def omega(env, psi, P, O):
    return lib.bracket(env, psi, P @ O - O @ P)


def expected(env, U, mats, groups, eta, n, trotter):
    """groups: list of lists of embedded words, one list per qubit or pair"""
    psi = lib.col(U)
    for O in mats:
        for ps in groups:
            if trotter:
                for P in ps:
                    U = env.expm(-1 * eta / 2 ** n * omega(env, psi, P, O) * P) @ U
            else:
                A = lib.zeros(env, 2 ** n)
                for P in ps:
                    A = A + omega(env, psi, P, O) * P
                U = env.expm(-1 * eta / 2 ** n * A) @ U
    return U


def groups_of(env, n, locality, names):
    return [[lib.placed(env, w, q, n) for w in names] for q in itertools.combinations(range(n), locality)]


def local(env, n, locality, spec, trotter, subsets=None, calls=1, herm=None, check=False, set_eta=False, limit=None,
          **extra):
    ot = env.mod('opt_tools')
    if limit:
        env.let_limit(limit)
    U = env.matrix('U', 2 ** n, kind='unitary')
    eta = env.real('eta', 0, 1)
    dev = env.qml.device('default.qubit', wires=n)
    obs, mats = lib.obs_list(env, spec), lib.obs_mats(env, spec, n)
    if herm:
        A = env.matrix('A', 2 ** len(herm), kind='hermitian')
        obs.append(env.qml.Hermitian(A, wires=list(herm)))
        mats.append(env.embed(A, herm, n))
    all_names = lib.words(locality)
    kw = dict(trotterize=trotter, **extra)
    names = all_names
    if subsets:
        d = env.choice('directions', subsets)
        kw['directions'] = list(d)
        names = [w for w in all_names if w in d]
    if check:
        kw['unitary_error_check'] = True
    layer = ot.LocalLieAlgebraLayer(dev, obs, locality, eta=0.25 if set_eta else eta, **kw)
    if set_eta:
        layer.set_eta(eta)
    env.ok('directions of the layer', sorted(layer.get_lie_algebra_directions_strings()) == sorted(names))
    V = U
    for c in range(calls):
        got = layer(V)
        want = expected(env, V, mats, groups_of(env, n, locality, names), eta, n, trotter)
        env.eq('unitary after call %d' % (c + 1), got, want)
        env.out('unitary %d' % c, got)
        # a second call from an unrelated unitary: nothing of the first one is left
        V = env.matrix('V%d' % c, 2 ** n, kind='unitary')


def untouched(env, n):
    """the unitary handed in is not modified"""
    ot = env.mod('opt_tools')
    U = env.matrix('U', 2 ** n, kind='unitary')
    keep = [x for r in U for x in r]
    dev = env.qml.device('default.qubit', wires=n)
    layer = ot.LocalLieAlgebraLayer(dev, lib.obs_list(env, [('Z', (0,))]), 1, eta=0.5, directions=['X'], trotterize=True)
    layer(U)
    env.eq('argument unchanged', [x for r in U for x in r], keep)


def scenarios(tier):
    Z, X, ZZ, XY = ('Z', (0,)), ('X', (0,)), ('ZZ', (0, 1)), ('XY', (1, 0))
    s1 = [c for r in (1, 2, 3) for c in itertools.combinations('XYZ', r)] + [('Z', 'X')]
    s2 = [('XX',), ('ZY', 'YX'), ('YY', 'XZ')]
    out = []
    for t in (False, True):
        m = 'trotter' if t else 'sum'
        out += [('n1_%s' % m, local, dict(n=1, locality=1, spec=[Z], trotter=t)),
                ('n1_two_obs_%s' % m, local, dict(n=1, locality=1, spec=[Z, X], trotter=t, limit=8)),
                ('n1_subsets_%s' % m, local, dict(n=1, locality=1, spec=[X], trotter=t, subsets=s1, calls=2, limit=8)),
                ('n1_hermitian_%s' % m, local, dict(n=1, locality=1, spec=[], herm=(0,), trotter=t, limit=8)),
                ('n2_%s' % m, local, dict(n=2, locality=1, spec=[XY], trotter=t, limit=8)),
                ('n2_subset_%s' % m, local, dict(n=2, locality=1, spec=[ZZ, ('Y', (1,))], trotter=t, subsets=[('Y', 'X'),
                                                                                                     ('Z',)], limit=8)),
                ('n2_pair_%s' % m, local, dict(n=2, locality=2, spec=[XY], trotter=t, limit=8)),
                ('n2_pair_subset_%s' % m, local, dict(n=2, locality=2, spec=[XY, Z], trotter=t, subsets=s2, limit=8))]
    out += [('set_eta', local, dict(n=1, locality=1, spec=[Z], trotter=False, set_eta=True, subsets=[('X', 'Y')])),
            ('untouched', untouched, dict(n=1))]
    out += [('n3_sum', local, dict(n=3, locality=1, spec=[('XZ', (2, 0))], trotter=False)),
            ('n3_trotter', local, dict(n=3, locality=1, spec=[('XZ', (2, 0))], trotter=True, subsets=[('X',), ('Y',), ('Z',)])),
            ('n4_pair_sum', local, dict(n=4, locality=2, spec=[('ZZ', (0, 3))], trotter=False, subsets=[('XZ',), ('YX',)])),
            ('n4_pair_trotter', local, dict(n=4, locality=2, spec=[('ZZ', (0, 3))], trotter=True, subsets=[('XZ',), ('YX',)]))]
    if tier == 'thorough':
        out += [('n3_two_sum', local, dict(n=3, locality=1, spec=[('XZ', (2, 0)), ('Y', (1,))], trotter=False)),
                ('n4_sum', local, dict(n=4, locality=1, spec=[('XZ', (2, 0))], trotter=False)),
                ('n4_pair_all', local, dict(n=4, locality=2, spec=[('ZZ', (0, 3))], trotter=False))]
        for t in (False, True):
            m = 'trotter' if t else 'sum'
            out += [('n2_hermitian_%s' % m, local, dict(n=2, locality=1, spec=[], herm=(1, 0), trotter=t)),
                    ('n3_subset_%s' % m, local, dict(n=3, locality=1, spec=[('XZ', (2, 0))], trotter=t, subsets=[('X', 'Y'), ('Z',)]))]
    return out
