"""C03: the Pauli operator basis."""
import itertools
from . import lib

BOUNDS = {'quick': 'su(2), su(4), su(2^n) for n = 1-4, with and without identity and names; expansion and action on '
                   'arbitrary complex matrices of the same size',
          'thorough': 'as quick, plus n = 5'}


def get(env, u, which, n, ident, named):
    kw = {'return_names': named}
    if ident is not None:
        kw['identity'] = ident
    if which == 'su2':
        return u.get_su_2_operators(**kw)
    if which == 'su4':
        return u.get_su_4_operators(**kw)
    return u.get_su_n_operators(2 ** n, **kw)


def basis(env, which, n):
    u = env.mod('utils')
    ident = env.choice('identity', [None, False, True])
    letters = 'IXYZ' if ident else 'XYZ'
    ops, names = get(env, u, which, n, ident, True)
    plain = get(env, u, which, n, ident, False)
    expected = lib.words(n, letters)
    env.ok('one operator per name', len(ops) == len(names) == len(plain) == len(expected))
    env.ok('every word exactly once', sorted(names) == sorted(expected))
    psi = env.state('psi', 2 ** n)
    for nm, A, B in zip(names, ops, plain):
        env.ok('shape of %s' % nm, tuple(A.shape) == (2 ** n, 2 ** n))
        want = lib.word(env, nm) @ psi
        env.eq('%s acts as its name' % nm, A @ psi, want)
        env.eq('%s without names, same place' % nm, B @ psi, want)
    env.out('last', ops[-1])
    # fresh objects on every call: changing one list does not change the next
    ops[0][0, 0] = 17
    env.eq('later calls are unaffected by earlier results', get(env, u, which, n, ident, False)[0] @ psi,
           lib.word(env, expected[0]) @ psi)


def expansion(env, which, n):
    u = env.mod('utils')
    ops = get(env, u, which, n, True, False)
    N = 2 ** n
    M = env.matrix('M', N)
    total = lib.zeros(env, N)
    for A in ops:
        t = 0
        for i in range(N):
            for j in range(N):
                t = t + A[i, j] * M[j, i]
        total = total + t * A / N
    env.out('expansion', total)
    env.eq('every matrix is the sum of tr(PM)/2^n P', total, M)


def scenarios(tier):
    cfg = [('su2', 1), ('su4', 2), ('sun', 1), ('sun', 2), ('sun', 3), ('sun', 4)]
    if tier == 'thorough':
        cfg += [('sun', 5)]
    return [('basis_%s_n%d' % c, basis, dict(which=c[0], n=c[1])) for c in cfg] + \
        [('expansion_%s_n%d' % c, expansion, dict(which=c[0], n=c[1])) for c in cfg]
