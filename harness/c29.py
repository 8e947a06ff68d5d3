"""C29: Pauli words are built, keyed and printed as they were written."""
import itertools
from . import lib

BOUNDS = {'quick': 'every word (identity letters included) on every subset of 3 sites, listed in every order, letters by name or index, '
                   'arbitrary complex coefficients; keys looked up in the su(8) catalogue of 3 qubits; texts of all pairs of words '
                   'on 2 sites; words on sites with one to three digits; invalid sites, letters, coefficients and repeated sites',
          'thorough': 'as quick with texts of all pairs on subsets of 3 sites and 4 sites'}
ASSUMPTIONS = []


def words(n, letters='-IXYZ'):
    return [w for w in (''.join(t) for t in itertools.product(letters, repeat=n)) if set(w) != {'-'}]


def build(env, pa, w, by, order, coeffs, sites=None):
    sites = sites or list(range(len(w)))
    ps = [pa.Pauli(sites[i], ch if by[i] else 'IXYZ'.index(ch), coeff=coeffs[i]) for i, ch in enumerate(w) if ch != '-']
    return pa.PauliMonomial([ps[k] for k in order(len(ps))])


ORDERS = {'as written': lambda k: range(k), 'reversed': lambda k: reversed(range(k)),
          'rotated': lambda k: [(i + 1) % k for i in range(k)]}


def single(env):
    pa = env.mod('pauli')
    ch = env.choice('letter', 'IXYZ')
    by = env.choice('by', ['name', 'index', 'numpy index', 'no coefficient'])
    a = env.choice('site', [0, 1, 7, 40])
    c = env.cplx('c')
    g = {'name': ch, 'index': 'IXYZ'.index(ch), 'numpy index': env.np.int64('IXYZ'.index(ch)), 'no coefficient': ch}[by]
    if by == 'no coefficient':
        p, c = pa.Pauli(a, g), 1
    else:
        p = pa.Pauli(a, g, coeff=c)
    env.ok('site', int(p.alpha) == a)
    env.ok('letter', int(p.gamma) == 'IXYZ'.index(ch))
    env.eq('coefficient', p.coeff, c)
    m = pa.PauliMonomial([p])
    env.eq('monomial coefficient', m.coeff, c)
    env.ok('monomial', len(m) == 1 and m[0] == p and list(m.locations) == [a])
    env.ok('key', plain(m.to_oranssi()) == ((ch, a) if ch != 'I' else ('',)))
    env.out('coeff', m.coeff)


def plain(k):
    return tuple(x if isinstance(x, str) else int(x) for x in k)


def keyed(env, n):
    pa, ot = env.mod('pauli'), env.mod('opt_tools')
    w = env.choice('word', words(n))
    by = env.choice('by name', [(0, 0, 0, 0), (1, 1, 1, 1), (1, 0, 1, 0)])
    order = env.choice('order', sorted(ORDERS))
    cs = [env.cplx('c%d' % i) for i in range(n)]
    m = build(env, pa, w, by, ORDERS[order], cs)
    given = [(i, ch) for i, ch in enumerate(w) if ch != '-']
    env.ok('sites in order', list(m.locations) == [i for i, _ in given] and len(m) == len(given))
    env.ok('letters', [(int(p.alpha), 'IXYZ'[int(p.gamma)]) for p in m.monomial] == given)
    t = 1
    for i, _ in given:
        t = t * cs[i]
    env.eq('coefficient', m.coeff, t)
    key = plain(m.to_oranssi())
    act = [(i, ch) for i, ch in given if ch != 'I']
    env.ok('the key names the letters and their sites', key == (''.join(ch for _, ch in act),) + tuple(i for i, _ in act))
    if act:
        alg = ot.AlgebraSU8(n, add_su2=True, add_su4=True) if n == 3 else ot.AlgebraSU4(n, add_su2=True)
        alg.get_all_directions_and_qubits()
        env.ok('the key is in the catalogue', key in alg.full_paulis)
        if key in alg.full_paulis:
            psi = env.state('psi', 2 ** n)
            full = w.replace('-', 'I')
            env.eq('and finds the operator', m.coeff * (alg.full_paulis[key] @ psi), t * (lib.word(env, full) @ psi))


def far_sites(env):
    """sites are ordered as numbers, however many digits they have"""
    pa = env.mod('pauli')
    sites = env.choice('sites', [(2, 10), (9, 10, 11), (7, 70, 100), (0, 1, 10), (99, 100), (3, 12, 20, 101)])
    order = env.choice('order', sorted(ORDERS))
    w = env.choice('word', ['XYZX', 'ZZXY', 'IXZY'])[-len(sites):]
    cs = [env.cplx('c%d' % i) for i in range(len(sites))]
    m = build(env, pa, w, (1, 0, 1, 0), ORDERS[order], cs, sites)
    env.ok('sites in order', [int(x) for x in m.locations] == list(sites))
    env.ok('letters', [(int(p.alpha), 'IXYZ'[int(p.gamma)]) for p in m.monomial] == list(zip(sites, w)))
    act = [(a, ch) for a, ch in zip(sites, w) if ch != 'I']
    env.ok('the key names the letters and their sites',
           plain(m.to_oranssi()) == (''.join(ch for _, ch in act),) + tuple(a for a, _ in act))
    t = 1
    for c in cs:
        t = t * c
    env.eq('coefficient', m.coeff, t)
    other = build(env, pa, w, (1, 1, 1, 1), ORDERS['as written'], cs, sites)
    env.ok('the order of writing is not kept', bool(m == other) and m.tex(coeff=False) == other.tex(coeff=False) and
           m.__repr__(coeff=False) == other.__repr__(coeff=False))
    env.out('coeff', m.coeff)


def texts(env, n, sites):
    """different words have different texts, equal ones the same, whatever the order they were written in"""
    pa = env.mod('pauli')
    v, w = env.choice('first', words(n)), env.choice('second', words(n))
    cs = [env.cplx('c%d' % i) for i in range(n)]
    ds = [env.cplx('d%d' % i) for i in range(n)]
    a = build(env, pa, v, (1,) * n, ORDERS['as written'], cs, sites)
    b = build(env, pa, w, (0,) * n, ORDERS['reversed'], ds, sites)
    env.ok('representation without coefficient', (a.__repr__(coeff=False) == b.__repr__(coeff=False)) == (v == w))
    env.ok('tex without coefficient', (a.tex(coeff=False) == b.tex(coeff=False)) == (v == w))
    if len(a) == len(b):
        env.ok('only equal ones share a hash key with the same kind of coefficient', not bool(a == b) or v == w)


def printed(env):
    """the coefficient is printed unless it is one"""
    pa = env.mod('pauli')
    w = env.choice('word', ['X', 'IZ', 'YX', '-Z'])
    c = env.choice('coefficient', [1.0, -1.0, 2.5, 1j, -1j, 0.5 - 2j])
    sites = [0, 3]
    m = build(env, pa, w, (1, 1), ORDERS['as written'], [c if i == len(w) - 1 else 1.0 for i in range(len(w))], sites)
    bare = m.__repr__(coeff=False)
    r = repr(m)
    env.ok('the word is in the text', r.endswith(bare))
    env.ok('a coefficient of one is left out', (r == bare) == (c == 1.0))
    if c != 1.0:
        head = r[:len(r) - len(bare)].replace('*', '').strip()
        env.ok('otherwise it is written', complex(head) == c)
    p = m[len(m) - 1]
    pr = repr(p)
    env.ok('letters print likewise', pr.endswith(p.__repr__(coeff=False)) and (pr == p.__repr__(coeff=False)) == (c == 1.0))
    t = m.tex()
    env.ok('tex starts with the coefficient', t.endswith(m.tex(coeff=False)) and
           complex(t[:len(t) - len(m.tex(coeff=False))].strip()) == c)


def invalid(env):
    pa = env.mod('pauli')
    kind = env.choice('kind', ['site', 'letter', 'coefficient', 'repeated site', 'not a Pauli', 'sum of something else',
                               'sum of unequal lengths', 'valid'])
    if kind == 'site':
        bad = env.choice('value', [-1, 0.5, '0', None, -7])
        env.ok('refused', not env.call(lambda: pa.Pauli(bad, 'X')).ok)
    elif kind == 'letter':
        bad = env.choice('value', [4, -1, 'x', 'XX', '', 'A', 1.5, None, 'i'])
        env.ok('refused', not env.call(lambda: pa.Pauli(0, bad)).ok)
    elif kind == 'coefficient':
        bad = env.choice('value', ['1', None, [1.0], 'x'])
        env.ok('refused', not env.call(lambda: pa.Pauli(0, 'X', coeff=bad)).ok)
    elif kind == 'repeated site':
        s = env.choice('sites', [(0, 0), (1, 0, 1), (2, 2, 0), (0, 3, 3)])
        l = env.choice('letters', ['XYZ', 'XXX', 'IIX'])
        env.ok('refused', not env.call(lambda: pa.PauliMonomial([pa.Pauli(a, ch) for a, ch in zip(s, l)])).ok)
    elif kind == 'not a Pauli':
        bad = env.choice('list', [['X'], [pa.Pauli(0, 'X'), 'Z'], [pa.Pauli(0, 'X'), None], [1.0, pa.Pauli(0, 'X')]])
        env.ok('refused', not env.call(lambda: pa.PauliMonomial(bad)).ok)
    elif kind == 'sum of something else':
        m = pa.PauliMonomial([pa.Pauli(0, 'X')])
        bad = env.choice('list', [[pa.Pauli(0, 'X')], [m, pa.Pauli(0, 'X')], [m, 'X'], [None, m]])
        env.ok('refused', not env.call(lambda: pa.PauliSum(bad)).ok)
    elif kind == 'sum of unequal lengths':
        m = pa.PauliMonomial([pa.Pauli(0, 'X')])
        m2 = pa.PauliMonomial([pa.Pauli(0, 'X'), pa.Pauli(1, 'Z')])
        bad = env.choice('list', [[m, m2], [m2, m], [m, m, m2], [m2, m, m2]])
        env.ok('refused', not env.call(lambda: pa.PauliSum(bad)).ok)
    else:
        c = env.real('c')
        ok = env.call(lambda: pa.PauliSum([pa.PauliMonomial([pa.Pauli(0, 'X', coeff=1.0), pa.Pauli(2, 3, coeff=0.5 + 2j)]),
                                           pa.PauliMonomial([pa.Pauli(1, 'X', coeff=c), pa.Pauli(0, 0)])]))
        env.ok('accepted', ok.ok)


def scenarios(tier):
    out = [('single', single, {}), ('keyed_n2', keyed, dict(n=2)), ('keyed_n3', keyed, dict(n=3)),
           ('texts_n2', texts, dict(n=2, sites=[1, 11])), ('texts_n2b', texts, dict(n=2, sites=[0, 2])),
           ('far_sites', far_sites, {}), ('printed', printed, {}), ('invalid', invalid, {})]
    if tier == 'thorough':
        out += [('texts_n3', texts, dict(n=3, sites=[1, 2, 12]))]
    return out
