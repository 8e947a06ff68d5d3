"""C19: equality, hashing and ordering of Paulis and monomials."""
import itertools
from . import lib

BOUNDS = {'quick': 'Paulis: all letters, sites and complex coefficients, pairs and triples; monomials of length 1-3 with every '
                   'letter pattern of length 1, selected ones of length 2-3, arbitrary complex coefficients, pairs and triples; '
                   'sorting of three monomials',
          'thorough': 'as quick with every pair of letter patterns of length 2, triples of length 2, sorting of four monomials'}
ASSUMPTIONS = []


def pauli_laws(env, size):
    pa = env.mod('pauli')
    ps, ids = [], []
    for k in range(size):
        g = env.choice('g%d' % k, 'IXYZ' if size == 2 else 'XZ')
        a = env.choice('a%d' % k, [0, 3])
        c = env.cplx('c%d' % k)
        ps.append(pa.Pauli(a, g, coeff=c))
        ids.append((a, g))
    for i, j in itertools.product(range(size), repeat=2):
        e = bool(ps[i] == ps[j])
        env.ok('equal exactly for the same letter and site', e == (ids[i] == ids[j]))
        if e:
            env.ok('equal Paulis have equal hashes', hash(ps[i]) == hash(ps[j]))
    env.ok('as members of a set', len(set(ps)) == len(set(ids)))
    env.out('n', len(set(ps)))


def mono(env, pa, w, sites, k):
    ps = []
    for i, ch in enumerate(w):
        ps.append(pa.Pauli(sites[i], ch, coeff=env.cplx('c%d' % k) if i == 0 else [1.0, 1j][i % 2]))
    return pa.PauliMonomial(ps)


def real(env, c):
    return c.imag == 0


def laws(env, ws, places, size):
    pa = env.mod('pauli')
    w = [env.choice('w%d' % k, ws) for k in range(size)]
    s = [env.choice('s%d' % k, places) for k in range(size)]
    m = [mono(env, pa, w[k], s[k], k) for k in range(size)]
    before = [x.coeff for x in m]
    n = size
    eq = [[bool(m[i] == m[j]) for j in range(n)] for i in range(n)]
    lt = [[bool(m[i] < m[j]) for j in range(n)] for i in range(n)]
    h = [hash(x) for x in m]
    isr = [bool(real(env, x.coeff)) for x in m]
    for i in range(n):
        env.ok('equality is reflexive', eq[i][i])
        env.ok('the order is irreflexive', not lt[i][i])
        for j in range(n):
            env.ok('equal exactly for the same letters, sites and realness',
                   eq[i][j] == (w[i] == w[j] and s[i] == s[j] and isr[i] == isr[j]))
            env.ok('equality is symmetric', eq[i][j] == eq[j][i])
            env.ok('equal monomials have equal hashes', not eq[i][j] or h[i] == h[j])
            env.ok('the order is asymmetric', not (lt[i][j] and lt[j][i]))
            gi, gj = [['IXYZ'.index(c) for c in w[k]] for k in (i, j)]
            if gi != gj:
                env.ok('letters come first in the order', lt[i][j] == (gi < gj))
            elif isr[i] != isr[j]:
                env.ok('then complex before real', lt[i][j] == isr[j])
            else:
                d = m[i].coeff - m[j].coeff
                t = d.real + d.imag
                env.ok('then the coefficient', (t < 0) if lt[i][j] else (t >= 0))
            for k in range(n):
                env.ok('equality is transitive', not (eq[i][j] and eq[j][k]) or eq[i][k])
                env.ok('the order is transitive', not (lt[i][j] and lt[j][k]) or lt[i][k])
                inc = [not lt[a][b] and not lt[b][a] for a, b in ((i, j), (j, k), (i, k))]
                env.ok('incomparability is transitive', not (inc[0] and inc[1]) or inc[2])
    env.eq('comparing changes nothing', [x.coeff for x in m], before)
    env.out('tables', [eq, lt])


def sorting(env, ws, size):
    pa = env.mod('pauli')
    m = [mono(env, pa, env.choice('w%d' % k, ws), (0, 1), k) for k in range(size)]
    r = sorted(m)
    env.ok('a rearrangement', len(r) == size and all(any(x is y for y in r) for x in m))
    for i in range(size):
        for j in range(i):
            env.ok('in order', not bool(r[i] < r[j]))
    env.out('order', [[x is y for y in r].index(True) for x in m])


def lengths(env):
    pa = env.mod('pauli')
    a, b = mono(env, pa, 'X', (0,), 0), mono(env, pa, 'XY', (0, 1), 1)
    env.ok('monomials of different length are refused', env.call(lambda: a == b).raised == 'AssertionError')
    env.ok('either way', env.call(lambda: b == a).raised == 'AssertionError')
    c = mono(env, pa, 'XY', (0, 1), 2)
    env.ok('membership', (c in [b]) == bool(real(env, c.coeff) == real(env, b.coeff)) if not env.symbolic else
           (c in [b]) == (bool(real(env, c.coeff)) == bool(real(env, b.coeff))))
    env.out('n', len(b))


def scenarios(tier):
    out = [('pauli_pairs', pauli_laws, dict(size=2)), ('pauli_triples', pauli_laws, dict(size=3)),
           ('mono1_pairs', laws, dict(ws=list('IXYZ'), places=[(0,), (2,)], size=2)),
           ('mono1_triples', laws, dict(ws=['X', 'Z'], places=[(0,)], size=3)),
           ('mono2_pairs', laws, dict(ws=['XX', 'XZ', 'ZX', 'IY'], places=[(0, 1), (1, 4)], size=2)),
           ('mono2_triples', laws, dict(ws=['XZ', 'ZX'], places=[(0, 1)], size=3)),
           ('mono3_pairs', laws, dict(ws=['XYZ', 'XZY', 'IIX'], places=[(0, 1, 2)], size=2)),
           ('sort2', sorting, dict(ws=['XZ', 'ZI', 'IX'], size=2)), ('sort3', sorting, dict(ws=['XZ', 'ZX'], size=3)),
           ('lengths', lengths, {})]
    if tier == 'thorough':
        out += [('mono2_all_' + a, laws, dict(ws=lib.words(2, 'IXYZ')[4 * i:4 * i + 4] + ['YY'], places=[(0, 1)], size=2))
                for i, a in enumerate('IXYZ')]
        out += [('mono2_triples_big', laws, dict(ws=['XZ', 'ZX', 'II'], places=[(0, 1), (0, 2)], size=3)),
                ('sort4', sorting, dict(ws=['X', 'Z'], size=4))]
    return out
