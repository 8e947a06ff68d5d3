"""C01: get_full_operator embeds an operator on any ordered tuple of distinct wires."""
import itertools

BOUNDS = {'quick': 'registers of 1-6 qubits, operators on 1-3 qubits (1-2 from 5 on), every ordered tuple of distinct wires, arbitrary '
                   'complex entries; refusals: operator sizes 1-3 qubits against 1-3 wires, wire indices up to 5',
          'thorough': 'as quick, plus registers of 7 qubits and 3-qubit operators on 5, 4-qubit operators on 4-5 qubits'}


def embedding(env, n, k):
    ct = env.mod('circuit_tools')
    wires = env.choice('wires', list(itertools.permutations(range(n), k)))
    kind = env.choice('container', ['tuple', 'list']) if n <= 2 else 'tuple'
    M = env.matrix('M', 2 ** k)
    before = [[M[i, j] for j in range(2 ** k)] for i in range(2 ** k)]
    full = ct.get_full_operator(M, tuple(wires) if kind == 'tuple' else list(wires), n)
    env.out('full', full)
    env.eq('embedding of a %d-qubit operator on wires %s of %d' % (k, wires, n), full, env.embed(M, wires, n))
    env.eq('the operator itself is unchanged', M, env.arr(before))


def compose(env, n):
    """embedding respects products: successive embeddings act one after the other"""
    ct = env.mod('circuit_tools')
    w1 = env.choice('w1', list(itertools.permutations(range(n), 1)))
    w2 = env.choice('w2', list(itertools.permutations(range(n), 2)))
    A, B = env.matrix('A', 2), env.matrix('B', 4)
    psi = env.state('psi', 2 ** n)
    got = ct.get_full_operator(B, w2, n) @ (ct.get_full_operator(A, w1, n) @ psi)
    env.out('state', got)
    env.eq('two embedded operators in a row', got, env.apply(env.apply(psi, A, w1, n), B, w2, n))


def refuse(env):
    ct = env.mod('circuit_tools')
    k = env.choice('op_qubits', [1, 2, 3])
    wires = env.choice('wires', [(0,), (1,), (2,), (5,), (0, 1), (1, 0), (0, 3), (2, 1), (0, 1, 2), (2, 0, 3)])
    n = env.choice('n', [1, 2, 3])
    M = env.matrix('M', 2 ** k)
    r = env.call(ct.get_full_operator, M, wires, n)
    valid = k == len(wires) and max(wires) < n
    env.out('accepted', r.ok)
    env.ok('operator on %d qubits, wires %s of %d: %s' % (k, wires, n, 'accepted' if valid else 'refused'),
           r.ok == valid)


def scenarios(tier):
    sizes = [(1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2), (4, 3), (5, 1), (5, 2), (6, 1), (6, 2)]
    if tier == 'thorough':
        sizes += [(4, 4), (5, 3), (5, 4), (7, 1), (7, 2)]
    return [('embed_n%d_k%d' % s, embedding, {'n': s[0], 'k': s[1]}) for s in sizes] + \
        [('compose_n%d' % n, compose, {'n': n}) for n in ((2, 3, 4) if tier == 'quick' else (2, 3, 4, 5))] + \
        [('refuse', refuse, {})]
