"""C17: Pauli monomials."""
import itertools
from . import lib

BOUNDS = {'quick': 'every pair of words (identity letters included) on every pair of subsets of 2 sites; 3-4 sites for words in general '
                   'position; arbitrary complex coefficients on every letter (one letter per word beyond 2 sites); chains of up to four operations',
          'thorough': 'as quick with every pair of words on subsets of 3 sites, and every triple on 2 sites'}
ASSUMPTIONS = []

# one entry per site: letter or '-' for a site the word does not mention
SITES = [0, 2, 5, 7]


def mono(env, pa, w, name, order=None, few=False):
    ps = []
    for i, ch in enumerate(w):
        if ch == '-':
            continue
        c = env.cplx('%s%d' % (name, i)) if not few or i == len(w.rstrip('-')) - 1 else [1.0, -2j, 0.5 + 1j][i % 3]
        g = ch if i % 2 else 'IXYZ'.index(ch)       # letters and indices are both admissible
        ps.append(pa.Pauli(SITES[i], g, coeff=c))
    if order:
        ps = [ps[k] for k in order]
    return pa.PauliMonomial(ps)


def value(env, m, n):
    """the matrix a monomial stands for, with identities on the sites it does not mention"""
    full = ['I'] * n
    for p in m.monomial:
        full[SITES.index(p.alpha)] = 'IXYZ'[p.gamma]
    return m.coeff * lib.word(env, ''.join(full))


def snap(m):
    return [(p.alpha, p.gamma) for p in m.monomial], list(m.locations)


def check(env, label, m, want, n, sites=None):
    env.eq(label, value(env, m, n), want)
    if sites is not None:
        env.ok(label + ': sites in order, each once', [p.alpha for p in m.monomial] == sorted(sites)
               and list(m.locations) == sorted(sites) and len(m) == len(sites))


def words(n, letters='-IXYZ'):
    return [w for w in (''.join(t) for t in itertools.product(letters, repeat=n)) if set(w) != {'-'}]


def sites_of(*ws):
    return sorted(set(SITES[i] for w in ws for i, c in enumerate(w) if c != '-'))


def pair(env, n, first, second, few=False):
    pa = env.mod('pauli')
    wa, wb = env.choice('A', first), env.choice('B', second)
    A, B = mono(env, pa, wa, 'a', few=few), mono(env, pa, wb, 'b', few=few)
    MA, MB = value(env, A, n), value(env, B, n)
    sa, sb = snap(A), snap(B)
    AB = A * B
    check(env, 'product', AB, MA @ MB, n, sites_of(wa, wb))
    c = A.commutes_with(B)
    diff = MA @ MB - MB @ MA
    small = lib.scaled(env, diff, MA @ MB)
    if c:
        env.eq('reported to commute', small, lib.zeros(env, 2 ** n))
    else:
        env.ok('reported not to commute', env.not_(env.equal(small, lib.zeros(env, 2 ** n))))
    C = A.commutator(B)
    env.eq('commutator', value(env, C, n), diff)
    env.ok('operands keep their words', snap(A) == sa and snap(B) == sb)
    env.eq('operands keep their value', [value(env, A, n), value(env, B, n)], [MA, MB])
    env.out('product', AB.coeff)
    env.out('commutator', C.coeff)


def chain(env, n, ops, ws):
    """programs over three monomials"""
    pa = env.mod('pauli')
    w = env.choice('words', ws)
    m = {k: mono(env, pa, x, k.lower()) for k, x in zip('ABC', w)}
    v = {k: value(env, m[k], n) for k in m}
    keep = dict(v)
    for k, (op, x, y) in enumerate(ops):
        if op == 'mul':
            m['R'], v['R'] = m[x] * m[y], v[x] @ v[y]
        elif op == 'comm':
            m['R'], v['R'] = m[x].commutator(m[y]), v[x] @ v[y] - v[y] @ v[x]
        elif op == 'conj':
            r = m[x].conj()
            v[x] = v[x].conj().T
            keep[x] = v[x]
            env.eq('step %d: conj returns the conjugate' % (k + 1), value(env, r, n), v[x])
            continue
        elif op == 'commutes':
            got = bool(m[x].commutes_with(m[y]))
            zero = env.equal(lib.scaled(env, v[x] @ v[y] - v[y] @ v[x], v[x] @ v[y]), lib.zeros(env, 2 ** n))
            env.ok('step %d: commutes_with' % (k + 1), zero if got else env.not_(zero))
            continue
        env.eq('step %d: %s' % (k + 1, op), value(env, m['R'], n), v['R'])
    for x in 'ABC':
        if x in m:
            env.eq('%s keeps its value' % x, value(env, m[x], n), keep[x])
    env.out('R', value(env, m['R'], n))


def single(env):
    """Pauli matrices on one site"""
    pa = env.mod('pauli')
    g, h = env.choice('g', 'IXYZ'), env.choice('h', 'IXYZ')
    a, b = env.cplx('a'), env.cplx('b')
    p, q = pa.Pauli(3, g, coeff=a), pa.Pauli(3, 'IXYZ'.index(h), coeff=b)
    r = p * q
    env.ok('same site', r.alpha == 3)
    env.eq('product of two Paulis', r.coeff * lib.word(env, 'IXYZ'[r.gamma]), a * b * (lib.word(env, g) @ lib.word(env, h)))
    env.eq('operands keep their coefficients', [p.coeff, q.coeff], [a, b])
    env.ok('operands keep their letters', (p.gamma, q.gamma) == ('IXYZ'.index(g), 'IXYZ'.index(h)))
    s = p.conj()
    env.eq('conjugate', s.coeff * lib.word(env, 'IXYZ'[s.gamma]), a.conjugate() * lib.word(env, g))
    o = env.call(lambda: p * pa.Pauli(4, h, coeff=b))
    env.ok('different sites are refused', o.raised == 'AssertionError')
    env.out('c', r.coeff)


def build(env, n, order):
    pa = env.mod('pauli')
    w = env.choice('w', ['XYZ', 'IZY', 'ZZX'])
    A = mono(env, pa, w, 'a', order)
    ps = A.monomial
    tot = 1
    for p in ps:
        tot = tot * p.coeff
    env.eq('total coefficient', A.coeff, tot)
    env.ok('sorted by site, letters follow their sites', [(p.alpha, 'IXYZ'[p.gamma]) for p in ps] ==
           [(SITES[i], w[i]) for i in range(n)])
    env.ok('length and access', len(A) == n and A[1].alpha == SITES[1])
    t = A.to_oranssi()
    env.ok('word and sites for the catalogues', tuple(t) == (w.replace('I', ''),) + tuple(
        SITES[i] for i in range(n) if w[i] != 'I'))
    o = env.call(lambda: pa.PauliMonomial([pa.Pauli(1, 'X'), pa.Pauli(1, 'Z')]))
    env.ok('a site given twice is refused', o.raised == 'AssertionError')
    env.out('coeff', A.coeff)


def scenarios(tier):
    out = [('single', single, {})]
    w1, w2 = words(1), words(2)
    for c in '-IXYZ':
        out.append(('pair_n2_%s' % (c if c != '-' else '0'), pair, dict(
            n=2, first=[w for w in w2 if w[0] == c], second=w2)))
    w3 = ['XYZ', 'ZI-', '-YX', 'I-Z', 'YYY', '--X', 'X--']
    out.append(('pair_n3', pair, dict(n=3, first=w3, second=w3, few=True)))
    out.append(('pair_n4', pair, dict(n=4, first=['XYZX', 'Z-IY'], second=['ZZXX', '-Y-Z', 'YXZI'], few=True)))
    ws = [('XY', 'YX', 'ZZ'), ('X-', '-Y', 'ZI'), ('YZ', 'YX', 'IX'), ('ZZ', 'Z-', '-X'), ('XX', 'YY', 'XY')]
    progs = {'assoc_left': [('mul', 'A', 'B'), ('mul', 'R', 'C')], 'assoc_right': [('mul', 'B', 'C'), ('mul', 'A', 'R')],
             'comm_mul': [('comm', 'A', 'B'), ('mul', 'R', 'C')], 'mul_comm': [('mul', 'A', 'B'), ('comm', 'C', 'R')],
             'nested': [('comm', 'A', 'B'), ('comm', 'R', 'C'), ('commutes', 'R', 'A')],
             'conj_mul': [('mul', 'A', 'B'), ('conj', 'R', None), ('mul', 'R', 'C'), ('conj', 'R', None)],
             'comm_conj': [('comm', 'A', 'B'), ('conj', 'R', None), ('mul', 'C', 'R'), ('commutes', 'R', 'B')],
             'conj_twice': [('conj', 'A', None), ('conj', 'A', None), ('mul', 'A', 'A')],
             'conj_ops': [('conj', 'A', None), ('mul', 'A', 'B'), ('conj', 'B', None), ('comm', 'R', 'B')],
             'square': [('mul', 'A', 'A'), ('mul', 'R', 'R'), ('commutes', 'R', 'B'), ('comm', 'R', 'C')]}
    for k, ops in progs.items():
        out.append(('chain_' + k, chain, dict(n=2, ops=ops, ws=ws)))
    for o in itertools.permutations(range(3)):
        out.append(('build_%d%d%d' % o, build, dict(n=3, order=o)))
    if tier == 'thorough':
        for c in words(2, '-IXYZ') + ['--']:
            f = [w for w in words(3) if w[:2] == c]
            out.append(('pair_n3_%s' % c.replace('-', '0'), pair, dict(n=3, first=f, second=words(3), few=True)))
        t = words(2, 'IXYZ')
        for k, ops in progs.items():
            out.append(('chain3_' + k, chain, dict(n=2, ops=ops, ws=list(itertools.product(t[1:9], t[3:12:2], t[::3])))))
    return out
