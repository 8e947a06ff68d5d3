"""C31: the phases of the Zassenhaus layer."""
import itertools
from . import lib

BOUNDS = {'quick': 'three qubits, one or two observables, ratios (1, 1) to (2, 2), up to 4 calls from unrelated unitaries; the unitary of '
                   'the last SU(8) step is arbitrary (real orthogonal), those before are fixed; states without candidate; SU(4) phases spent at critical points; two learning rates',
          'thorough': 'as quick with a complex unitary, more ratios and up to 6 calls'}
ASSUMPTIONS = ['the rotation before the SU(8) phase has a non-zero angle']
N = 3
WORDS = [(w, q) for w in lib.words(2) for q in itertools.combinations(range(N), 2)]


def givens(env, c, s, i, j):
    G = [[1 if a == b else 0 for b in range(8)] for a in range(8)]
    G[i][i] = G[j][j] = c
    G[i][j], G[j][i] = -1 * s, s
    return env.arr(G)


def fixed(env, k):
    """exactly unitary matrices with rational entries, without special structure"""
    k = [0, 1, 3, 4, 5][k % 5]
    U = lib.eye(env, 8)
    cs = [(0.6, 0.8), (0.28, -0.96), (0.96, 0.28), (0.8, -0.6), (-0.28, 0.96)]
    for t in range(12):
        c, s = cs[(t * t + 2 * k + t * k) % 5]
        i = (t + k) % 8
        U = givens(env, c, s, i, (i + 1 + (t + k) % 3) % 8) @ U
        if t in (4, 9):
            U = env.arr([[[1, 0.6 + 0.8j, 1j, 0.28 - 0.96j, 1, 0.8 + 0.6j, -1, 1j][(a + t) % 8] if a == b else 0
                          for b in range(8)] for a in range(8)]) @ U
    return U


def gradient(env, psi, P, mats):
    t = 0
    for O in mats:
        t = t + lib.bracket(env, psi, P @ O - O @ P).imag
    return t


def product(a, b):
    """(k, word on all three qubits) with [a, b] = 2i k word, if a and b share one qubit and do not commute"""
    LET = {('X', 'Y'): (1, 'Z'), ('Y', 'Z'): (1, 'X'), ('Z', 'X'): (1, 'Y'),
           ('Y', 'X'): (-1, 'Z'), ('Z', 'Y'): (-1, 'X'), ('X', 'Z'): (-1, 'Y')}
    A, B = dict(zip(a[1], a[0])), dict(zip(b[1], b[0]))
    both = set(A) & set(B)
    if len(both) != 1:
        return None
    q = both.pop()
    if A[q] == B[q]:
        return None
    k, ch = LET[(A[q], B[q])]
    full = dict(A)
    full.update(B)
    full[q] = ch
    return k, ''.join(full[i] for i in range(3))


def steepest(env, W, mats):
    psi = lib.col(W)
    om = [abs(float(gradient(env, psi, lib.placed(env, w, q, N), mats))) for w, q in WORDS]
    best = max(om)
    top = [i for i, v in enumerate(om) if v > best - 1e-6]
    return top, best


def first_angle(env, W, word, mats):
    """the angle that minimises the cost along the word"""
    psi = lib.col(W)
    P = lib.placed(env, word[0], word[1], N)
    b = d = 0
    for O in mats:
        b = b + (env.expect(psi, O) - lib.bracket(env, psi, P @ O @ P).real) / 2
        d = d + (1j * lib.bracket(env, psi, P @ O - O @ P)).real / 2
    # cost = const + b cos t + d sin t
    return -1 * env.pi / 2 - env.atan2(b, d)


def run(env, ratio, calls, spec, last, kind='orthogonal', eta=(0.1, 1.0)):
    """calls 0 .. calls-1; the unitary of the last call is arbitrary (last='any'), fixed, or has no candidate"""
    ot = env.mod('opt_tools')
    dev = env.qml.device('default.qubit', wires=N)
    obs, mats = lib.obs_list(env, spec), lib.obs_mats(env, spec, N)
    e = env.choice('eta', eta)
    layer = ot.ZassenhausLayer(dev, obs, eta=e, **({} if ratio is None else {'ratio': ratio}))
    r = ratio or (1, 1)
    phase, count = 'su4', 0
    A, theta = None, None
    for c in range(calls):
        env.ok('phase at the start of call %d' % c, layer.su_state == phase)
        final = c == calls - 1
        W = env.matrix('W', 8, kind=kind) if final and last == 'any' else lib.eye(env, 8) if final and last == 'none' else fixed(env, c)
        if phase == 'su4':
            U = layer(W)
            if not (final and last == 'any'):
                top, best = steepest(env, W, mats)
                if len(top) != 1 or best < 1e-3:
                    env.fail('the fixed unitaries of this scenario have one steepest word')
                    return
                A = WORDS[top[0]]
                theta = first_angle(env, W, A, mats)
                psi = rotate(env, lib.col(W), lib.placed(env, A[0], A[1], N), theta)
                env.eq('call %d rotates about the steepest word by the best angle' % c, lib.col(U), psi)
            count += 1
            if count >= r[0]:
                phase, count = 'su8', 0
            continue
        psi = lib.col(W)
        cand = []
        for b in WORDS:
            p = product(A, b)
            if p is not None:
                g8 = gradient(env, psi, lib.word(env, p[1]), mats)
                g4 = gradient(env, psi, lib.placed(env, b[0], b[1], N), mats)
                cand.append((b, p[0], g8, g4))
        if not env.symbolic:
            for b, k, g8, g4 in cand:      # replays stay away from the edges of the conditions
                env.assume(abs(abs(g8) - 1e-3) > 1e-6 and (g4 == 0 or abs(g4) > 1e-9))
        U = layer(W)
        if same(env, lib.col(U), psi):
            for b, k, g8, g4 in cand:
                env.ok('call %d leaves the unitary, %s%s is no candidate' % (c, b[0], b[1]),
                       env.any([env.abs(g8) <= 1e-3, env.all([g4 <= 0, g4 >= 0])]))
            env.eq('call %d: without candidate the unitary stays' % c, U, W)
            phase, count = 'su4', 0
            continue
        env.ok('call %d rotates, there is a candidate' % c, last != 'none' or not final)
        hits = []
        for b, k, g8, g4 in cand:
            # [A, B] = 2i k AB
            w = -1 * (g8 * 2 / theta) / (2 * k)
            want = rotate(env, psi, lib.placed(env, b[0], b[1], N), w * e / 4)
            if same(env, lib.col(U), want):
                hits.append((b, g8, g4, w))
        if not hits:
            env.fail('call %d applies the gate of a candidate' % c)
            return
        env.ok('call %d: the candidate has gradients' % c, env.any([env.all([env.abs(g8) > 1e-3, env.any([g4 > 0, g4 < 0])])
                                                                    for b, g8, g4, w in hits]))
        b, g8, g4, w = hits[0]
        P = lib.placed(env, b[0], b[1], N)
        env.eq('call %d: unitary' % c, U, rotate(env, W, P, w * e / 4))
        A = b
        count += 1
        if count >= r[1]:
            phase, count = 'su4', 0
    env.ok('phase after the last call', layer.su_state == phase)


def still(env, ratio, spec):
    """calls at critical points, where no rotation helps, count like any other"""
    ot = env.mod('opt_tools')
    layer = ot.ZassenhausLayer(env.qml.device('default.qubit', wires=N), lib.obs_list(env, spec), ratio=ratio)
    for c in range(ratio[0]):
        env.ok('phase at the start of call %d' % c, layer.su_state == 'su4')
        W = lib.word(env, env.choice('start%d' % c, ['III', 'XXX', 'XIX', 'ZIX']))
        U = layer(W)
        env.eq('call %d: the result is unitary' % c, U @ lib.dag(U), lib.eye(env, 8))
    env.ok('phase after the last call', layer.su_state == 'su8')


def same(env, x, y):
    return env.equal(x, y) is True if env.symbolic else max(abs(a - b) for a, b in zip(x, y)) < 1e-7


def rotate(env, psi, P, t):
    """exp(-i t P / 2) psi"""
    return env.cos(t / 2) * psi - (1j * env.sin(t / 2)) * (P @ psi)


OPTIONS = {'run': {'skip_lets': True, 'max_paths': 400}}


def scenarios(tier):
    one, two = [('ZZ', (0, 2))], [('ZZ', (0, 1)), ('X', (2,))]
    out = [('any_1_1', run, dict(ratio=None, calls=2, spec=one, last='any', eta=(0.1,))),
           ('any_1_1_y', run, dict(ratio=(1, 1), calls=2, spec=[('YX', (1, 2))], last='any', eta=(1.0,))),
           ('any_1_2', run, dict(ratio=(1, 2), calls=3, spec=one, last='any', eta=(1.0,))),
           ('none_1_1', run, dict(ratio=(1, 1), calls=2, spec=two, last='none')),
           ('none_1_3', run, dict(ratio=(1, 3), calls=3, spec=two, last='none')),
           ('still_3', still, dict(ratio=(3, 1), spec=[('Z', (0,)), ('Z', (2,))])),
           ('fixed_1_1', run, dict(ratio=(1, 1), calls=4, spec=two, last='fixed')),
           ('fixed_2_1', run, dict(ratio=(2, 1), calls=4, spec=two, last='fixed')),
           ('fixed_2_2', run, dict(ratio=(2, 2), calls=4, spec=one, last='fixed'))]
    if tier == 'thorough':
        out += [('any_complex', run, dict(ratio=(1, 1), calls=2, spec=one, last='any', kind='unitary')),
                ('fixed_3_2', run, dict(ratio=(3, 2), calls=6, spec=two, last='fixed')),
                ('any_2_2', run, dict(ratio=(2, 2), calls=4, spec=one, last='any'))]
    return out
