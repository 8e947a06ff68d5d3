"""C16: direction catalogues."""
import itertools
from . import lib

BOUNDS = {'quick': 'su(2) on 1-6 qubits, su(4) on 1-6, su(8) on 1-5 qubits, all flag combinations; entries act on arbitrary states; '
                   'catalogue built once, twice, and after entries were added by hand',
          'thorough': 'su(2) and su(4) up to 7 qubits, su(8) up to 6 qubits'}
ASSUMPTIONS = []


def build(ot, which, n, su2, su4):
    if which == 'su2':
        return ot.AlgebraSU2(n, add_su2=su2) if su2 else ot.AlgebraSU2(n)
    if which == 'su4':
        return ot.AlgebraSU4(n, add_su2=su2)
    return ot.AlgebraSU8(n, add_su2=su2, add_su4=su4)


def weights(which, su2, su4):
    if which == 'su2':
        return [1]
    if which == 'su4':
        return ([1] if su2 else []) + [2]
    return ([1] if su2 else []) + ([2] if su4 else []) + [3]


def catalogue(env, which, n):
    ot = env.mod('opt_tools')
    su2 = env.bool('su2')
    su4 = env.bool('su4') if which == 'su8' else False
    how = env.choice('history', ['once', 'twice', 'by hand first', 'two objects'])
    alg = build(ot, which, n, su2, su4)
    ws = [w for w in weights(which, su2, su4) if w <= n]
    expected = set((d,) + q for w in ws for d in lib.words(w) for q in itertools.combinations(range(n), w))
    if how == 'by hand first' and expected:
        k = sorted(expected)[-1]
        alg.add_pauli(k[0], k[1:])
        env.ok('an added entry is listed', [tuple(map(_plain, x)) for x in alg.full_paulis] == [k])
    elif how == 'two objects':
        other = build(ot, which, n, su2, su4)
        other.get_all_directions_and_qubits()
        for k in other.full_paulis:
            other.full_paulis[k] *= 0
        env.ok('a new catalogue is empty', len(alg.full_paulis) == 0)
    alg.get_all_directions_and_qubits()
    if how == 'twice':
        alg.get_all_directions_and_qubits()
    keys = [tuple(map(_plain, k)) for k in alg.full_paulis]
    env.ok('every word on every tuple of qubits', set(keys) >= expected)
    env.ok('nothing else', set(keys) <= expected)
    env.ok('each exactly once', len(keys) == len(expected))
    psi = env.state('psi', 2 ** n)
    for k in alg.full_paulis:
        q = tuple(map(_plain, k))
        A = alg.full_paulis[k]
        env.ok('shape of %s' % (q,), tuple(A.shape) == (2 ** n, 2 ** n))
        env.eq('%s%s is the word on those qubits' % (q[0], q[1:]), A @ psi, lib.placed(env, q[0], q[1:], n) @ psi)
    env.out('keys', len(keys))


def _plain(x):
    return x if isinstance(x, str) else int(x)


def projection(env, which, n):
    """summing <P> P over the catalogue: the projection of any matrix on the span of the listed words"""
    ot = env.mod('opt_tools')
    su2, su4 = which != 'su2', which == 'su8'
    alg = build(ot, which, n, su2, su4)
    alg.get_all_directions_and_qubits()
    M = env.matrix('M', 2 ** n, kind='hermitian')
    N = 2 ** n
    got = want = lib.zeros(env, N)
    for A in alg.full_paulis.values():
        got = got + _tr(A, M) * A
    for w in weights(which, su2, su4):
        for d in lib.words(w):
            for q in itertools.combinations(range(n), w):
                P = lib.placed(env, d, q, n)
                want = want + _tr(P, M) * P
    env.eq('the catalogue projects on the words of its weights', got, want)
    env.out('projection', got)


def _tr(A, M):
    t = 0
    for i in range(M.shape[0]):
        for j in range(M.shape[0]):
            t = t + A[i, j] * M[j, i]
    return t


def scenarios(tier):
    big = tier == 'thorough'
    cfg = [('su2', n) for n in range(1, 8 if big else 7)] + [('su4', n) for n in range(1, 8 if big else 7)] + \
        [('su8', n) for n in range(1, 7 if big else 6)]
    out = [('%s_n%d' % c, catalogue, dict(which=c[0], n=c[1])) for c in cfg]
    out += [('projection_%s_n%d' % c, projection, dict(which=c[0], n=c[1])) for c in
            [('su2', 2), ('su4', 2), ('su4', 3), ('su8', 3)]]
    return out
