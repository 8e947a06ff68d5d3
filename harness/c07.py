"""C07: a step of the exact optimiser."""
from . import lib

BOUNDS = {'quick': '1-2 qubits, arbitrary initial unitary (as one gate), learning rate in [0, 1], 1-2 observables (Pauli '
                   'words), 1-2 steps; the exponential of a Hermitian matrix and the eigendecomposition are one '
                   'uninterpreted function of the matrix',
          'thorough': 'as quick with 3 steps on one qubit, 2 steps on two qubits, 3 observables and 3 qubits'}
ASSUMPTIONS = ['eigh(H) and expm(zH) of the same Hermitian matrix are consistent with each other (spectral calculus); '
               'nothing else is assumed about them']


def grad(env, psi, O):
    rho = lib.outer(env, psi)
    return 1j * (rho @ O - O @ rho)


def step(env, U, mats, eta):
    for O in mats:
        U = env.expm(-1j * eta / 2 * grad(env, lib.col(U), O)) @ U
    return U


def run(env, n, spec, nsteps, limit=None, words=None, eta0=False):
    op = env.mod('optimizers')
    if limit:
        env.let_limit(limit)
    W = env.matrix('W', 2 ** n, kind='unitary')
    eta = 0. if eta0 else env.real('eta', 0, 1)
    if words:
        spec = spec[:-1] + [(env.choice('word', words), spec[-1][1])]
    dev = env.qml.device('default.qubit', wires=n)
    r = op.exact_lie_optimizer(lib.unitary_circuit(env, W, n), [], lib.obs_list(env, spec), dev, nsteps=nsteps, eta=eta,
                               return_state=True, return_unitary=True)
    costs, states, U = r
    mats = lib.obs_mats(env, spec, n)
    env.ok('one cost and state per step', len(costs) == nsteps + 1 and len(states) == nsteps + 1)
    V = W
    env.eq('initial state', states[0], lib.col(W))
    env.eq('initial cost', costs[0], lib.cost(env, W, mats))
    for s in range(nsteps):
        V = step(env, V, mats, eta)
        env.eq('state after step %d' % (s + 1), states[s + 1], lib.col(V))
        env.eq('cost after step %d' % (s + 1), costs[s + 1], lib.cost(env, V, mats))
    env.eq('returned unitary', U, V)
    if eta0:
        env.eq('learning rate zero changes nothing', U, W)
    env.out('unitary', U)
    env.out('costs', costs)


def descent(env, n):
    """the applied generator is a descent direction: the first-order change of the cost is -eta/2 |G|^2 or less"""
    ct = env.mod('circuit_tools')
    psi = env.state('psi', 2 ** n)
    w = env.choice('word', ['X', 'Y', 'Z'] if n == 1 else ['ZZ', 'XY', 'ZI'])
    O = lib.word(env, w)
    I = lib.eye(env, 2 ** n)
    G = ct.param_shift_comm(lib.outer(env, psi), lambda t: env.cos(t / 2) * I - 1j * env.sin(t / 2) * O)
    # d/deta <O> along exp(-i eta/2 G) is  i/2 <[G, O]>
    d = 1j * lib.bracket(env, psi, G @ O - O @ G)
    env.le('first-order change of the cost', d.real, 0)


OPTIONS = {'descent': {'witness': 0}}


def scenarios(tier):
    Z, X = ('Z', (0,)), ('X', (0,))
    out = [('n1_one_obs', run, dict(n=1, spec=[X], words=['X', 'Y', 'Z'], nsteps=1)),
           ('n1_two_obs', run, dict(n=1, spec=[Z, X], nsteps=1, limit=12)),
           ('n1_two_steps', run, dict(n=1, spec=[Z], nsteps=2, words=['X', 'Z'], limit=12)),
           ('n2_one_obs', run, dict(n=2, spec=[('ZZ', (0, 1))], words=['ZZ', 'XY'], nsteps=1, limit=12)),
           ('n2_swapped', run, dict(n=2, spec=[('XY', (1, 0))], nsteps=1, limit=12)),
           ('n2_two_obs', run, dict(n=2, spec=[('Z', (1,)), ('XY', (1, 0))], nsteps=1, limit=12)),
           ('n1_eta0', run, dict(n=1, spec=[Z, X], nsteps=2, eta0=True, limit=12)),
           ('descent_n1', descent, dict(n=1))]
    if tier == 'thorough':
        out += [('n1_three_steps', run, dict(n=1, spec=[Z, X], nsteps=3, limit=12)),
                ('n2_two_steps', run, dict(n=2, spec=[('ZX', (0, 1)), ('Y', (0,))], nsteps=2, limit=12)),
                ('n1_three_obs', run, dict(n=1, spec=[Z, X, ('Y', (0,))], nsteps=1, limit=12)),
                ('n3_one_obs', run, dict(n=3, spec=[('ZX', (2, 0))], nsteps=1, limit=12)),
                ('descent_n2', descent, dict(n=2))]
    return out
