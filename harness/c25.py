"""C25: the operator two-norm."""
from . import lib

BOUNDS = {'quick': 'every complex matrix of shape 1x1, 2x2, 2x3, 3x2, 4x4; every 2x2 unitary and every one-qubit rotation of two qubits on either side',
          'thorough': 'as quick with 8x8 matrices'}
ASSUMPTIONS = []
OPTIONS = {f: {'scales': [1.0, 1e-5, 1e5, 1e-3, 1e-9]} for f in ('value', 'scaled', 'invariant')}


def total(env, M):
    t = 0
    for i in range(M.shape[0]):
        for j in range(M.shape[1]):
            x = M[i, j]
            t = t + x.real * x.real + x.imag * x.imag
    return t


def same(env, label, a, b):
    """equality; replays compare relative to the size of the numbers"""
    if not env.symbolic:
        m = max(abs(a), abs(b))
        if m > 1e-290:
            a, b = a / m, b / m
    env.eq(label, a, b)


def value(env, n, m):
    ut = env.mod('utils')
    M = env.matrix('M', n, m)
    r = ut.operator_2_norm(M)
    t = total(env, M)
    env.ok('non-negative', r >= 0)
    same(env, 'its square is the sum of the squared moduli', r * r, t)
    env.eq('it is a real number', r, r.real)
    z = bool(r <= 0)
    if z:
        env.ok('zero only for the zero matrix', t <= 0 if env.symbolic else t <= 1e-290)
    env.out('norm', r)


def scaled(env, n):
    ut = env.mod('utils')
    M = env.matrix('M', n)
    c = env.cplx('c')
    a, b = ut.operator_2_norm(M), ut.operator_2_norm(c * M)
    m2 = c.real * c.real + c.imag * c.imag
    same(env, 'homogeneous', b * b, m2 * (a * a))
    same(env, 'adjoint', ut.operator_2_norm(lib.dag(M)), a)
    env.out('norms', [a, b])


def invariant(env, n, side):
    ut = env.mod('utils')
    N = 2 ** n
    M = env.matrix('M', N)
    V = env.unitary2('V')
    if n > 1:
        V = env.embed(V, [env.choice('wire', list(range(n)))], n)
    P = V @ M if side == 'left' else M @ V
    same(env, 'unchanged by a unitary', ut.operator_2_norm(P), ut.operator_2_norm(M))


def constants(env):
    ut = env.mod('utils')
    w = env.choice('word', ['X', 'YZ', 'ZZX'])
    env.eq('norm of a Pauli word', ut.operator_2_norm(lib.word(env, w)), env.sqrt(2 ** len(w)))
    env.eq('norm of zero', ut.operator_2_norm(lib.zeros(env, 2)), 0)


def scenarios(tier):
    out = [('value_%dx%d' % s, value, dict(n=s[0], m=s[1])) for s in ((1, 1), (2, 2), (2, 3), (3, 2), (4, 4))]
    out += [('scaled_%d' % n, scaled, dict(n=n)) for n in (2, 3)]
    out += [('%s_n%d' % (s, n), invariant, dict(n=n, side=s)) for s in ('left', 'right') for n in (1, 2)]
    out += [('constants', constants, {})]
    if tier == 'thorough':
        out += [('value_8x8', value, dict(n=8, m=8)), ('scaled_4', scaled, dict(n=4))]
    return out
