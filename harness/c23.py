"""C23: the unitarity check of the layers."""
from . import lib

BOUNDS = {'quick': 'one and two qubits; the computed exponential is an arbitrary complex 2x2 matrix, or an arbitrary unitary times a factor '
                   'in [0.1, 3], or a 4x4 diagonal drift; local and custom layer, trotterised or not, check on and off; exact exponentials on '
                   '1-2 qubits', 'thorough': 'as quick with two exponentials per call'}
ASSUMPTIONS = ['the accuracy of the check is 1e-8 per entry of U U^dag - 1, to within 2%',
               'numpy.linalg.svd returns some singular value decomposition']
LO, HI = 0.98e-8, 1.02e-8


def make(env, kind, n, trotter, check, eta=0.5, dirs=('X',)):
    ot = env.mod('opt_tools')
    dev = env.qml.device('default.qubit', wires=n)
    obs = lib.obs_list(env, [('Z', (0,))])
    kw = dict(eta=eta, trotterize=trotter)
    if check is not None:
        kw['unitary_error_check'] = check
    if kind == 'local':
        return ot.LocalLieAlgebraLayer(dev, obs, 1 if len(dirs[0]) == 1 else 2, directions=list(dirs), **kw)
    return ot.CustomDirectionLieAlgebraLayer(dev, obs, directions=list(dirs), **kw)


def error(env, M, N):
    """entries of M M^dag - 1"""
    E = M @ M.conj().T - lib.eye(env, N)
    return [E[i, j] for i in range(N) for j in range(N)]


def judge(env, label, got, M, W, check):
    """got is the result of a call on W when the exponential came out as M"""
    N = 2
    if not check:
        env.eq(label + 'without the check it is applied as it is', got, M @ W)
        return
    errs = [env.abs(x) for x in error(env, M, N)]
    same = env.equal(got, M @ W)
    good = env.all([e <= LO for e in errs])
    bad = env.any([e >= HI for e in errs])
    if same is True:
        env.ok(label + 'applied as it is: it is unitary', env.not_(bad))
    else:
        if not env.symbolic and bool(env.all([e <= HI for e in errs])) and not bool(good):
            return
        if env.symbolic or not bool(same):
            env.ok(label + 'replaced: it is not unitary', env.not_(good))
        else:
            env.ok(label + 'applied as it is: it is unitary', env.not_(bad))
            return
        R = got
        env.eq(label + 'what is applied is unitary', R @ lib.dag(R), lib.eye(env, N))


def arbitrary(env, kind, trotter, check):
    calls = []

    def expm(A):
        calls.append(A)
        return env.matrix('M', 2)
    env.patch_expm(expm)
    layer = make(env, kind, 1, trotter, check)
    I = lib.eye(env, 2)
    got = layer(I)
    env.ok('one exponential', len(calls) == 1)
    M = env.matrix('M', 2)
    if not env.symbolic:
        env.assume(abs(env.np.linalg.det(M)) > 1e-3)
    judge(env, '', got, M, I, check)
    env.out('result', got)


def drift(env, kind, trotter, check, steps=1):
    """unitaries that have lost or gained norm: the unitary itself is restored"""
    V = [env.unitary2('V0'), lib.word(env, 'Y')][:steps]
    d = [env.real('f%d' % k, 0.1, 3) for k in range(steps)]
    calls = []

    def expm(A):
        k = len(calls)
        calls.append(A)
        return d[k] * V[k]
    env.patch_expm(expm)
    layer = make(env, kind, 1, trotter, check, dirs=('X', 'Y')[:steps] if trotter else ('X',))
    W = lib.eye(env, 2)
    got = layer(W)
    env.ok('one exponential per direction', len(calls) == steps)
    want = W
    for k in range(steps):
        f = d[k]
        err = env.abs(f * f - 1)
        if check and bool(err >= HI):
            want = V[k] @ want
        elif not check or bool(err <= LO):
            want = f * V[k] @ want
        else:
            return
    env.eq('drift is removed, everything else unchanged', got, want)
    env.out('result', got)


def exact(env, kind, n, trotter, dirs):
    """an exact exponential is applied unchanged"""
    U = env.matrix('U', 2 ** n, kind='unitary')
    eta = env.real('eta', 0, 1)
    a = make(env, kind, n, trotter, True, eta, dirs)(U)
    b = make(env, kind, n, trotter, env.choice('off', [False, None]), eta, dirs)(U)
    env.eq('the check changes nothing', a, b)
    env.out('result', a)


def direct(env, n, shape):
    """the test and the projection themselves"""
    layer = make(env, 'local', n, True, True)
    N = 2 ** n
    if shape == 'diagonal':
        ds = [env.real('d%d' % k, 0.1, 3) for k in range(N)]
        M = env.arr([[ds[i] if i == j else 0 for j in range(N)] for i in range(N)])
    elif shape == 'word':
        c, s = env.real('c', -2, 2), env.real('s', -2, 2)
        M = c * lib.eye(env, N) - 1j * s * lib.placed(env, 'XY'[:n], tuple(range(n)), n)
    else:
        M = env.matrix('M', N)
    r = bool(layer._is_unitary(M))
    errs = [env.abs(x) for x in error(env, M, N)]
    if r:
        env.ok('accepted: unitary to the stated accuracy', env.not_(env.any([e >= HI for e in errs])))
    else:
        env.ok('refused: not unitary', env.not_(env.all([e <= LO for e in errs])))
    env.out('verdict', r)


def project(env):
    layer = make(env, 'local', 1, True, True)
    M = env.matrix('M', 2)
    if not env.symbolic:
        env.assume(abs(env.np.linalg.det(M)) > 1e-3)
    R = layer._project_onto_unitary(M)
    env.eq('the projection is unitary', R @ lib.dag(R), lib.eye(env, 2))
    H = lib.dag(R) @ M
    if not env.symbolic:
        env.eq('it is the closest one', H, lib.dag(H))
        env.ok('closest: positive', bool(env.np.linalg.eigvalsh((H + lib.dag(H)) / 2).min() > -1e-6))
    V = env.unitary2('V')
    env.eq('a unitary is its own projection', layer._project_onto_unitary(V), V)
    env.out('R', R)


def scenarios(tier):
    out = []
    for kind in ('local', 'custom'):
        for t in (False, True):
            m = '%s_%s' % (kind, 'trotter' if t else 'sum')
            out += [('drift_' + m, drift, dict(kind=kind, trotter=t, check=True)),
                    ('off_' + m, drift, dict(kind=kind, trotter=t, check=False)),
                    ('arbitrary_' + m, arbitrary, dict(kind=kind, trotter=t, check=True)),
                    ('exact_n1_' + m, exact, dict(kind=kind, n=1, trotter=t, dirs=('X',))),
                    ('exact_n2_' + m, exact, dict(kind=kind, n=2, trotter=t, dirs=('XY',) if kind == 'custom' else ('Y',)))]
    out += [('two_steps', drift, dict(kind='local', trotter=True, check=True, steps=2)),
            ('test_arbitrary', direct, dict(n=1, shape='any')), ('test_word_n2', direct, dict(n=2, shape='word')),
            ('test_diagonal_n2', direct, dict(n=2, shape='diagonal')), ('test_word_n1', direct, dict(n=1, shape='word')),
            ('projection', project, {})]
    return out
