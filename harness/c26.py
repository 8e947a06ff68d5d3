"""C26: a unitary run as a circuit."""
import itertools
from . import lib

BOUNDS = {'quick': 'every complex matrix in place of the unitary on 1-3 qubits; observables: every Pauli word on every wire tuple of '
                   'up to 2 qubits, arbitrary Hermitian observables on 1-2 wires, products of Paulis with identities; direct '
                   'QNodes and those of a layer; several calls in any order',
          'thorough': 'as quick with 4 qubits and Hermitian observables on 2 of 3 wires'}
ASSUMPTIONS = []


def state(env, n):
    ct = env.mod('circuit_tools')
    U = env.matrix('U', 2 ** n, kind='unitary')
    dev = env.qml.device('default.qubit', wires=n)
    psi = env.qml.QNode(ct.circuit_state_from_unitary, dev)(unitary=U)
    env.ok('one amplitude per basis state', tuple(psi.shape) == (2 ** n,))
    env.eq('the state is the first column', psi, lib.col(U))
    env.out('state', psi)


def word(env, n, k):
    ct = env.mod('circuit_tools')
    U = env.matrix('U', 2 ** n, kind='unitary')
    w = env.choice('word', lib.words(k, 'XYZ' if k > 1 else 'IXYZ'))
    wires = env.choice('wires', list(itertools.permutations(range(n), k)))
    dev = env.qml.device('default.qubit', wires=n)
    node = env.qml.QNode(ct.circuit_observable_from_unitary, dev)
    v = node(unitary=U, observable=lib.obs_list(env, [(w, wires)])[0])
    psi = lib.col(U)
    env.eq('expectation value', v, env.expect(psi, lib.placed(env, w, wires, n)))
    env.out('value', v)


def hermitian(env, n, k):
    ct = env.mod('circuit_tools')
    U = env.matrix('U', 2 ** n, kind='unitary')
    A = env.matrix('A', 2 ** k, kind='hermitian')
    wires = env.choice('wires', list(itertools.permutations(range(n), k)))
    dev = env.qml.device('default.qubit', wires=n)
    node = env.qml.QNode(ct.circuit_observable_from_unitary, dev)
    v = node(unitary=U, observable=env.qml.Hermitian(A, wires=list(wires)))
    env.eq('expectation value', v, env.expect(lib.col(U), env.embed(A, wires, n)))
    env.out('value', v)


def calls(env, n, layer):
    """the nodes keep nothing from one call to the next"""
    ct = env.mod('circuit_tools')
    dev = env.qml.device('default.qubit', wires=n)
    U, V = env.matrix('U', 2 ** n, kind='unitary'), env.matrix('V', 2 ** n, kind='unitary')
    spec = [('Z', (n - 1,)), ('X', (0,))]
    obs, mats = lib.obs_list(env, spec), lib.obs_mats(env, spec, n)
    if layer:
        l = env.mod('opt_tools').LocalLieAlgebraLayer(dev, obs, 1)
        snode, onode = l.state_qnode, l.obs_qnode
    else:
        snode = env.qml.QNode(ct.circuit_state_from_unitary, dev)
        onode = env.qml.QNode(ct.circuit_observable_from_unitary, dev)
    order = env.choice('order', [0, 1])
    a = snode(unitary=U)
    x = onode(unitary=V, observable=obs[order])
    b = snode(unitary=V)
    y = onode(unitary=U, observable=obs[1 - order])
    z = onode(unitary=U, observable=obs[order])
    env.eq('first state', a, lib.col(U))
    env.eq('second state', b, lib.col(V))
    env.eq('first value', x, env.expect(lib.col(V), mats[order]))
    env.eq('second value', y, env.expect(lib.col(U), mats[1 - order]))
    env.eq('third value', z, env.expect(lib.col(U), mats[order]))
    env.out('all', [a, b, x, y, z])


def missing(env):
    ct = env.mod('circuit_tools')
    dev = env.qml.device('default.qubit', wires=1)
    U = env.matrix('U', 2, kind='unitary')
    which = env.choice('missing', ['state: unitary', 'value: unitary', 'value: observable', 'value: both'])
    given = {'state: unitary': {}, 'value: unitary': {'observable': env.qml.PauliZ(0)}, 'value: observable': {'unitary': U},
             'value: both': {}}[which]
    fn = ct.circuit_state_from_unitary if which.startswith('state') else ct.circuit_observable_from_unitary
    env.ok('refused', not env.call(lambda: env.qml.QNode(fn, dev)(**given)).ok)


def scenarios(tier):
    out = [('state_n%d' % n, state, dict(n=n)) for n in (1, 2, 3)]
    out += [('word_n%d_k%d' % c, word, dict(n=c[0], k=c[1])) for c in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2))]
    out += [('hermitian_n%d_k%d' % c, hermitian, dict(n=c[0], k=c[1])) for c in ((1, 1), (2, 1), (2, 2), (3, 1))]
    out += [('calls_n1', calls, dict(n=1, layer=False)), ('calls_n2', calls, dict(n=2, layer=False)),
            ('layer_n2', calls, dict(n=2, layer=True)), ('missing', missing, {})]
    if tier == 'thorough':
        out += [('state_n4', state, dict(n=4)), ('word_n3_k3', word, dict(n=3, k=3)), ('word_n4_k2', word, dict(n=4, k=2)),
                ('hermitian_n3_k2', hermitian, dict(n=3, k=2))]
    return out
