"""C30: direction plots draw the directions of the recorded unitaries."""
from . import lib

BOUNDS = {'quick': 'runs of 1-3 unitaries (arbitrary matrices for the aggregated plots of 2 and 4 qubits and the separate plot of 4; '
                   'families of rotations with arbitrary angles where curves that vanish are left out), one and two observables; '
                   'cost landscapes on grids up to 3 x 2; label sizes',
          'thorough': 'as quick with more observables and longer runs'}
ASSUMPTIONS = ['matplotlib draws the curves it is given; what is checked is the data, label and axes of every curve']


def omegas(env, U, mats, n):
    psi = lib.col(U)
    out = {}
    for w in lib.words(n, 'IXYZ'):
        P = lib.word(env, w)
        t = 0
        for O in mats:
            t = t + lib.bracket(env, psi, P @ O - O @ P).imag
        out[w] = t / 2 ** n
    return out


def weight(w):
    return sum(c != 'I' for c in w)


def spec_of(n, which):
    return {'one': [('Z', (0,))], 'two': [('ZZ', (0, n - 1)), ('X', (1,))], 'field': [('Y', (n - 1,))]}[which]


def rotations(env, n, steps):
    """unitaries that move few directions away from zero"""
    us = []
    for k in range(steps):
        a = env.angle('a%d' % k)
        c, s = env.cos(a / 2), env.sin(a / 2)
        G = lib.placed(env, *[('X', (0,)), ('YX', (0, 1)), ('Y', (n - 1,))][k % 3], n)
        us.append(lib.eye(env, 2 ** n) * c - G * (s * 1j))
    return us


def lines(ax):
    return [(str(l.get_label()), list(l.get_ydata())) for l in ax.get_lines()]


def steps_ok(env, ax, count):
    env.ok('one point per unitary, in order', all([float(x) for x in l.get_xdata()] == list(range(count)) for l in ax.get_lines()))


def aggregated(env, n, steps, spec, kind='unitary'):
    pu = env.mod('plot_utils')
    which = env.choice('observables', spec)
    dev = env.qml.device('default.qubit', wires=n)
    us = rotations(env, n, steps) if kind == 'rotations' else [env.matrix('U%d' % k, 2 ** n, kind=kind) for k in range(steps)]
    mats = lib.obs_mats(env, spec_of(n, which), n)
    env.plt.close('all')
    first = env.plt.figure()
    f = pu.plot_su16_directions if n == 4 else pu.plot_su8_directions
    fig, ax = f(n, us, lib.obs_list(env, spec_of(n, which)), dev)
    steps_ok(env, ax, steps)
    oms = [omegas(env, U, mats, n) for U in us]
    got = lines(ax)
    labels = [l for l, _ in got]
    for k in range(1, n + 1):
        name = 'SU$(%d)$' % 2 ** k
        env.ok('one curve for weight %d' % k, labels.count(name) == 1)
        if labels.count(name) != 1:
            continue
        want = []
        for om in oms:
            t = 0
            for w in om:
                if weight(w) == k:
                    t = t + abs(om[w])
            want.append(t)
        env.eq('summed size of the directions of weight %d' % k, got[labels.index(name)][1], want)
    for l, y in got:
        if not l.startswith('SU$'):
            env.eq('the only other curve is the line of zero', y, [0] * steps)
    if n == 2:
        individual(env, lines(first.gca()), oms, n)
    env.plt.close('all')


def individual(env, got, oms, n):
    labels = [l for l, _ in got]
    env.ok('each word at most once', len(set(labels)) == len(labels))
    for l, y in got:
        known = l in oms[0] and weight(l) > 0
        env.ok('curves are labelled with words', known)
        if known:
            env.eq('curve %s' % l, y, [om[l] for om in oms])
    for w in oms[0]:
        if weight(w) and w not in labels:
            for om in oms:
                env.le('a word without curve vanishes', abs(om[w]), 1e-7)


def individually(env, steps, spec):
    pu = env.mod('plot_utils')
    n = 2
    which = env.choice('observables', spec)
    dev = env.qml.device('default.qubit', wires=n)
    us = rotations(env, n, steps)
    mats = lib.obs_mats(env, spec_of(n, which), n)
    fig, ax = pu.plot_su8_directions_individually(us, lib.obs_list(env, spec_of(n, which)), dev)
    steps_ok(env, ax, steps)
    individual(env, lines(ax), [omegas(env, U, mats, n) for U in us], n)
    env.plt.close('all')


def separate(env, steps, spec, kind):
    pu = env.mod('plot_utils')
    n = 4
    which = env.choice('observables', spec)
    dev = env.qml.device('default.qubit', wires=n)
    us = rotations(env, n, steps) if kind == 'rotations' else [env.matrix('U%d' % k, 2 ** n, kind=kind) for k in range(steps)]
    mats = lib.obs_mats(env, spec_of(n, which), n)
    fig, axs = pu.plot_su16_directions_separate(n, us, lib.obs_list(env, spec_of(n, which)), dev)
    oms = [omegas(env, U, mats, n) for U in us]
    axs = [a for row in axs for a in row]
    env.ok('four plots', len(axs) == 4)
    for k, ax in enumerate(axs[:4]):
        steps_ok(env, ax, steps)
        got = lines(ax)
        labels = [l for l, _ in got]
        env.ok('plot %d has the words of weight %d' % (k, k + 1), sorted(labels) == sorted(w for w in oms[0] if weight(w) == k + 1))
        for l, y in got:
            if l in oms[0]:
                env.eq('curve %s' % l, y, [om[l] for om in oms])
    env.plt.close('all')


class Recorder:
    def __init__(self):
        self.calls, self.bars = [], 0

    def contourf(self, *a, **k):
        self.calls.append(a)
        return 'drawn'

    def colorbar(self, im, **k):
        self.bars += 1

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


def landscape(env, K, L):
    """rows of the cost matrix belong to theta, columns to phi, the layout of numpy.meshgrid"""
    pu = env.mod('plot_utils')
    phi = env.arr([env.real('p%d' % i) for i in range(K)])
    theta = env.arr([env.real('t%d' % i) for i in range(L)])
    costs = env.arr([[env.real('c%d%d' % (i, j)) for j in range(K)] for i in range(L)])
    ax = Recorder()
    pu.plot_bloch_sphere_2d(phi, theta, costs, ax, ax)
    env.ok('one landscape', len(ax.calls) == 1 and len(ax.calls[0]) == 3)
    if len(ax.calls) == 1 and len(ax.calls[0]) == 3:
        x, y, z = ax.calls[0]
        sx, sy = len(getattr(x, 'shape', (0,))), len(getattr(y, 'shape', (0,)))
        env.ok('one value per grid point', tuple(z.shape) == (L, K))
        if tuple(z.shape) == (L, K):
            env.eq('values', z, costs)
        for i in range(L):
            for j in range(K):
                env.eq('phi is the horizontal axis', x[i, j] if sx == 2 else x[j], phi[j])
                env.eq('theta is the vertical axis', y[i, j] if sy == 2 else y[i], theta[i])
    env.ok('one colour bar', ax.bars == 1)


def labels(env):
    pu = env.mod('plot_utils')
    size = env.choice('size', [3, 15, 40])
    fig, axs = env.plt.subplots(1, 2)
    for a in axs:
        a.plot([0, 1, 2])
    before = [t.get_fontsize() for t in texts(axs[1])]
    pu.change_label_fontsize(axs[0], size)
    env.ok('every label has the new size', all(float(t.get_fontsize()) == size for t in texts(axs[0])))
    env.ok('other axes keep theirs', [t.get_fontsize() for t in texts(axs[1])] == before)
    env.plt.close('all')


def texts(ax):
    return [ax.xaxis.label, ax.yaxis.label] + list(ax.get_xticklabels()) + list(ax.get_yticklabels())


OPTIONS = {'aggregated': {'witness': 1}, 'individually': {'witness': 2}, 'separate': {'witness': 1}}


def scenarios(tier):
    out = [('aggregated_n4', aggregated, dict(n=4, steps=2, spec=['one'])),
           ('aggregated_n4_r', aggregated, dict(n=4, steps=3, spec=['two'], kind='rotations')),
           ('aggregated_n2', aggregated, dict(n=2, steps=3, spec=['one', 'two', 'field'], kind='rotations')),
           ('separate_n4', separate, dict(steps=2, spec=['one'], kind='unitary')),
           ('separate_n4_r', separate, dict(steps=3, spec=['two'], kind='rotations')),
           ('individually_s1', individually, dict(steps=1, spec=['one', 'two', 'field'])),
           ('individually_s2', individually, dict(steps=2, spec=['one', 'two'])),
           ('landscape', landscape, dict(K=3, L=2)), ('landscape_sq', landscape, dict(K=2, L=2)), ('labels', labels, {})]
    if tier == 'thorough':
        out += [('separate_two', separate, dict(steps=2, spec=['two', 'field'], kind='unitary')),
                ('individually_s3', individually, dict(steps=3, spec=['one', 'two', 'field']))]
    return out
