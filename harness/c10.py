"""C10: argument validation of optimisers and layers."""
from . import lib

BOUNDS = {'quick': 'every real learning rate and tolerance, step counts in [-3, 4], localities and strides in [-2, 5]; each '
                   'flag with non-boolean values of several types and with both booleans; registers of 1-4 qubits; every '
                   'kind of circuit result',
          'thorough': 'as quick with step counts in [-6, 8]'}
ASSUMPTIONS = ['any exception counts as a refusal', 'numeric hyperparameters are plain floats and ints']


class Flow:
    """counts the steps a run took"""

    def __init__(self):
        self.steps = 0


def runner(env, which, n=1, circuit=None, layers=None):
    op, ot = env.mod('optimizers'), env.mod('opt_tools')
    qml = env.qml
    dev = qml.device('default.qubit', wires=n)
    obs = lib.obs_list(env, [('Z', (0,))])
    flow = Flow()

    class Idle(ot.LieLayer):
        def __call__(self, circuit_unitary, *a, **k):
            flow.steps += 1
            return circuit_unitary

        def __repr__(self):
            return 'idle'

    def state(p, **k):
        for i in range(n):
            qml.Hadamard(wires=i)
        return qml.state()

    def free(p, **k):
        qml.RY(p[0], wires=0)
    if which == 'exact':
        return flow, lambda **k: op.exact_lie_optimizer(circuit or state, [], obs, dev, **k)
    if which == 'layers':
        ls = [Idle(dev, obs, n)] if layers is None else layers(Idle(dev, obs, n))
        return flow, lambda **k: op.approximate_lie_optimizer(circuit or state, [], obs, dev, ls, **k)
    return flow, lambda **k: op.parameter_shift_optimizer(circuit or free, [0.3], obs, dev, **k)


def outcome(env, flow, call, valid, **kw):
    r = env.call(call, **kw)
    if r.ok:
        env.ok('an accepted setting is a valid one', valid)
    else:
        env.ok('a refused setting is an invalid one', env.not_(valid))
        env.ok('no step before the refusal', flow.steps == 0)
    env.out('refused', not r.ok)


def inside(env, x, lo, hi):
    cs = []
    if lo is not None:
        cs.append(x >= lo)
    if hi is not None:
        cs.append(x <= hi)
    return env.all(cs)


def eta_range(env, which):
    eta = env.real('eta')
    flow, call = runner(env, which)
    outcome(env, flow, call, inside(env, eta, 0, 1), nsteps=1, eta=eta)


def tol_range(env, which):
    tol = env.real('tol')
    flow, call = runner(env, which)
    outcome(env, flow, call, inside(env, tol, 0, None), nsteps=1, tol=tol)


def nsteps_range(env, which, lo, hi):
    k = env.int('nsteps', lo, hi)
    flow, call = runner(env, which)
    outcome(env, flow, call, inside(env, k, 1, None), nsteps=k, eta=0.25)


BAD = {'nsteps': [2.5, '3', None, 0, -1], 'eta': [1, 0, '0.1', None, 1.5, -0.25, float('nan'), float('inf')],
       'tol': [1, '1', -0.5, float('nan'), -float('inf')],
       'flag': [1, 0, 'yes', None, 1.0]}
FLAGS = {'exact': ['return_state', 'perturbation', 'return_perturbations', 'return_unitary'],
         'layers': ['return_state', 'return_omegas', 'return_unitary', 'return_gates', 'perturb', 'return_perturbations',
                    'return_zassenhaus'],
         'shift': ['return_state', 'return_params']}


def kinds(env, which):
    """values of the wrong type"""
    name = env.choice('argument', ['nsteps', 'eta', 'tol', 'escape_tol'] if which == 'layers' else ['nsteps', 'eta', 'tol'])
    bad = env.choice('value', {'escape_tol': [1, '0.1', None]}.get(name) or BAD[name])
    flow, call = runner(env, which)
    kw = {'nsteps': 1}
    kw[name] = bad
    outcome(env, flow, call, False, **kw)


def flags(env, which):
    name = env.choice('flag', FLAGS[which])
    val = env.choice('value', BAD['flag'] + [True, False])
    flow, call = runner(env, which)
    kw = {'nsteps': 1, name: val}
    ok = isinstance(val, bool)
    if which == 'exact' and name == 'return_perturbations' and val is True:
        ok = env.bool('perturb')
        kw['perturbation'] = ok
    outcome(env, flow, call, ok, **kw)


def defaults(env, which):
    """no arguments at all: the run is accepted"""
    n = env.choice('qubits', [1, 2])
    flow, call = runner(env, which, n=n)
    r = env.call(call, nsteps=env.choice('nsteps', [1, 2]))
    env.ok('accepted', r.ok)
    none = which == 'layers' and env.call(call, nsteps=1, tol=None).ok
    env.ok('tolerance may be absent for the layer-based optimiser only', none == (which == 'layers'))


def circuits(env, which):
    qml = env.qml
    kind = env.choice('result', ['state', 'expval', 'probs', 'nothing', 'var'])

    def circuit(p, **k):
        qml.RY(0.3, wires=0)
        if kind == 'state':
            return qml.state()
        if kind == 'expval':
            return qml.expval(qml.PauliZ(0))
        if kind == 'var':
            return qml.var(qml.PauliZ(0))
        if kind == 'probs':
            return qml.probs(wires=[0])
    flow, call = runner(env, which, circuit=circuit)
    outcome(env, flow, call, kind == ('nothing' if which == 'shift' else 'state'), nsteps=1)


def layer_lists(env):
    kind = env.choice('layers', ['list', 'two', 'tuple', 'layer', 'string', 'mixed', 'class'])
    make = {'list': lambda l: [l], 'two': lambda l: [l, l], 'tuple': lambda l: (l,), 'layer': lambda l: l,
            'string': lambda l: ['local'], 'mixed': lambda l: [l, 3], 'class': lambda l: [type(l)]}[kind]
    flow, call = runner(env, 'layers', layers=make)
    outcome(env, flow, call, kind in ('list', 'two'), nsteps=2)


# ------------------------------------------------------------------------------------------------ layers
KINDS = ['local1', 'local2', 'custom', 'stochastic', 'squared', 'adapt', 'su8', 'zassenhaus', 'zassenhaus2']


def make_layer(env, kind, n, **kw):
    ot = env.mod('opt_tools')
    dev = env.qml.device('default.qubit', wires=n)
    obs = lib.obs_list(env, [('Z', (0,))])
    return {'local1': lambda: ot.LocalLieAlgebraLayer(dev, obs, kw.pop('locality', 1), **kw),
            'local2': lambda: ot.LocalLieAlgebraLayer(dev, obs, 2, **kw),
            'custom': lambda: ot.CustomDirectionLieAlgebraLayer(dev, obs, kw.pop('directions', ['X']), **kw),
            'stochastic': lambda: ot.StochasticLieAlgebraLayer(dev, obs, **kw),
            'squared': lambda: ot.SquaredLieAlgebraLayer(dev, obs, **kw),
            'adapt': lambda: ot.AdaptVQELayer(dev, obs, **kw),
            'su8': lambda: ot.SU8_AlgebraLayer(dev, obs, **kw),
            'zassenhaus': lambda: ot.ZassenhausLayer(dev, obs, **kw),
            'zassenhaus2': lambda: ot.ZassenhausLayerV2(dev, obs, **kw)}[kind]()


def layer_outcome(env, valid, kind, n, **kw):
    r = env.call(lambda: make_layer(env, kind, n, **kw))
    if r.ok:
        env.ok('an accepted setting is a valid one', valid)
    else:
        env.ok('a refused setting is an invalid one', env.not_(valid))
    env.out('refused', not r.ok)
    return r.value


def layer_eta(env, kind, n):
    eta = env.real('eta')
    l = layer_outcome(env, inside(env, eta, 0, 1), kind, n, eta=eta)
    if l is not None:
        env.eq('the learning rate is the given one', l.eta, eta)


def layer_kinds(env, kind, n):
    name = env.choice('argument', ['eta', 'unitary_error_check', 'trotterize'])
    val = env.choice('value', BAD['eta'] if name == 'eta' else BAD['flag'] + [True, False])
    layer_outcome(env, name != 'eta' and isinstance(val, bool), kind, n, **{name: val})


def locality(env, n):
    loc = env.int('locality', -2, 5)
    layer_outcome(env, env.any([loc == 1, env.all([loc == 2, n % 2 == 0])]), 'local1', n, locality=loc)


def stride(env, n=2):
    s = env.int('stride', -2, 5)
    layer_outcome(env, env.any([s == 0, s == 1]), 'local2', n, stride=s)


def sizes(env):
    kind = env.choice('layer', ['su8', 'zassenhaus', 'local2'])
    n = env.choice('qubits', [1, 2, 3, 4] if kind == 'local2' else [1, 2, 3])
    layer_outcome(env, n % 2 == 0 if kind == 'local2' else n >= 3, kind, n)


def directions(env):
    kind = env.choice('layer', ['local1', 'local2', 'custom'])
    names = {'local1': lib.words(1), 'local2': lib.words(2), 'custom': lib.words(1) + lib.words(2)}[kind]
    d = env.choice('directions', [['X'], ['ZZ'], ['X', 'Z'], ['XY', 'YX'], ['X', 'ZZ'], ['W'], ['XYZ'], ['X', 'II'], ['x'],
                                  ['IX'], ['']])
    layer_outcome(env, all(x in names for x in d), kind, 2, directions=d)


OPTIONS = {}


def scenarios(tier):
    big = tier == 'thorough'
    out = []
    for w in ('exact', 'layers', 'shift'):
        out += [('eta_' + w, eta_range, dict(which=w)), ('tol_' + w, tol_range, dict(which=w)),
                ('nsteps_' + w, nsteps_range, dict(which=w, lo=-6 if big else -3, hi=8 if big else 3)),
                ('kinds_' + w, kinds, dict(which=w)), ('flags_' + w, flags, dict(which=w)),
                ('defaults_' + w, defaults, dict(which=w)), ('circuit_' + w, circuits, dict(which=w))]
    out.append(('layer_lists', layer_lists, {}))
    for k in KINDS:
        n = 3 if k in ('su8', 'zassenhaus', 'zassenhaus2') else 2
        out += [('layer_eta_' + k, layer_eta, dict(kind=k, n=n)), ('layer_kinds_' + k, layer_kinds, dict(kind=k, n=n))]
    out += [('locality_n%d' % n, locality, dict(n=n)) for n in (1, 2, 3)]
    out += [('stride', stride, {}), ('stride_n4', stride, dict(n=4)), ('sizes', sizes, {}), ('directions', directions, {})]
    return out
