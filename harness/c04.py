"""C04: Hamiltonian assembly."""
import itertools
from . import lib

BOUNDS = {'quick': '1-4 qubits, up to 4 terms (an observable may be repeated), symbolic real coefficients, Pauli words on every ordered wire tuple, '
                   'arbitrary Hermitian 1- and 2-qubit observables (two on the same wires included), coefficients as list, array or absent',
          'thorough': 'as quick with 5 qubits'}


def pauli_terms(env, n, terms, lens):
    ct = env.mod('circuit_tools')
    spec = []
    for i in range(terms):
        k = env.choice('len%d' % i, lens) if len(lens) > 1 else lens[0]
        w = env.choice('word%d' % i, ['X', 'Y', 'Z'] if k == 1 else ['ZZ', 'XY', 'YZ'] if k == 2 else ['XYZ'])
        wires = env.choice('wires%d' % i, list(itertools.permutations(range(n), k)))
        spec.append((w, wires))
    mode = env.choice('coeffs', ['list', 'array', 'none', 'default'])
    cs = [env.real('c%d' % i) for i in range(terms)]
    obs = lib.obs_list(env, spec)
    if mode == 'none':
        H = ct.get_hamiltonian_matrix(n, obs, None)
    elif mode == 'default':
        H = ct.get_hamiltonian_matrix(n, obs)
    elif mode == 'array':
        H = ct.get_hamiltonian_matrix(n, obs, env.np.array(cs))
    else:
        H = ct.get_hamiltonian_matrix(n, obs, cs)
    want = lib.zeros(env, 2 ** n)
    for c, M in zip(cs, lib.obs_mats(env, spec, n)):
        want = want + (1 if mode in ('none', 'default') else c) * M
    env.out('H', H)
    env.eq('Hamiltonian of %s with coefficients %s' % (spec, mode), H, want)


def hermitian_terms(env, n):
    ct = env.mod('circuit_tools')
    w1 = env.choice('w1', [[q] for q in range(n)])
    w2 = env.choice('w2', [list(p) for p in itertools.permutations(range(n), 2)])
    A = env.matrix('A', 2, kind='hermitian')
    B = env.matrix('B', 4, kind='hermitian')
    a, b = env.real('a'), env.real('b')
    obs = [env.qml.Hermitian(A, wires=w1), env.qml.Hermitian(B, wires=w2)]
    H = ct.get_hamiltonian_matrix(n, obs, [a, b])
    env.out('H', H)
    env.eq('Hermitian observables on %s and %s' % (w1, w2), H, a * env.embed(A, w1, n) + b * env.embed(B, w2, n))
    env.eq('the Hamiltonian is Hermitian', H, lib.dag(H))


def same_wires(env, n, k):
    """different observables of the same kind on the same wires are different terms"""
    ct = env.mod('circuit_tools')
    w = env.choice('wires', list(itertools.permutations(range(n), k)))
    A, B = env.matrix('A', 2 ** k, kind='hermitian'), env.matrix('B', 2 ** k, kind='hermitian')
    a, b = env.real('a'), env.real('b')
    given = env.choice('coefficients', ['list', 'none'])
    obs = [env.qml.Hermitian(A, wires=list(w)), env.qml.Hermitian(B, wires=list(w))]
    H = ct.get_hamiltonian_matrix(n, obs, [a, b] if given == 'list' else None)
    env.out('H', H)
    if given == 'none':
        a = b = 1
    env.eq('two observables on %s' % (w,), H, env.embed(a * A + b * B, w, n))


def repeated(env, n):
    """one observable object may carry several terms"""
    ct = env.mod('circuit_tools')
    spec = [('Z', (n - 1,)), ('XY', (n - 1, 0)), ('X', (0,))]
    obs, mats = lib.obs_list(env, spec), lib.obs_mats(env, spec, n)
    idx = env.choice('terms', [(0, 0), (1, 0, 1), (2, 2, 2), (0, 1, 1, 0), (2, 1, 0, 2)])
    cs = [env.real('c%d' % i) for i in range(len(idx))]
    given = env.choice('coefficients', ['list', 'none'])
    H = ct.get_hamiltonian_matrix(n, [obs[i] for i in idx], cs if given == 'list' else None)
    want = lib.zeros(env, 2 ** n)
    for c, i in zip(cs, idx):
        want = want + (c if given == 'list' else 1) * mats[i]
    env.out('H', H)
    env.eq('Hamiltonian with repeated observables', H, want)


def energy(env, n):
    """the energy of any state is the weighted sum of expectations"""
    ct = env.mod('circuit_tools')
    spec = [('Z', (0,)), ('XY', (n - 1, 0))]
    cs = [env.real('c0'), env.real('c1')]
    psi = env.state('psi', 2 ** n)
    H = ct.get_hamiltonian_matrix(n, lib.obs_list(env, spec), cs)
    got = env.expect(psi, H)
    env.out('energy', got)
    want = 0
    for c, M in zip(cs, lib.obs_mats(env, spec, n)):
        want = want + c * env.expect(psi, M)
    env.eq('energy', got, want)


def scenarios(tier):
    out = [('pauli_n1', pauli_terms, dict(n=1, terms=2, lens=[1])), ('pauli_n2', pauli_terms, dict(n=2, terms=2, lens=[1, 2])),
           ('pauli_n3_k2', pauli_terms, dict(n=3, terms=1, lens=[2])), ('pauli_n3_k3', pauli_terms, dict(n=3, terms=1, lens=[3])),
           ('pauli_n1_t3', pauli_terms, dict(n=1, terms=3, lens=[1])),
           ('hermitian_n2', hermitian_terms, dict(n=2)), ('hermitian_n3', hermitian_terms, dict(n=3)),
           ('repeated_n2', repeated, dict(n=2)), ('repeated_n3', repeated, dict(n=3)),
           ('same_n1', same_wires, dict(n=1, k=1)), ('same_n2', same_wires, dict(n=2, k=2)),
           ('pauli_n4', pauli_terms, dict(n=4, terms=1, lens=[1, 2])), ('hermitian_n4', hermitian_terms, dict(n=4)),
           ('energy_n2', energy, dict(n=2)), ('energy_n3', energy, dict(n=3))]
    if tier == 'thorough':
        out += [('pauli_n3_t2', pauli_terms, dict(n=3, terms=2, lens=[2])), ('hermitian_n5', hermitian_terms, dict(n=5)),
                ('pauli_n5', pauli_terms, dict(n=5, terms=1, lens=[2]))]
    return out
