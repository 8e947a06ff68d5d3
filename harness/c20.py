"""C20: commuting sets of edges."""
import itertools

BOUNDS = {'quick': 'lists of up to 3 arbitrary directed pairs on 4 qubits (repeated and reversed pairs included), selected lists of '
                   '4-5 pairs on 5 qubits, lists of distinct single qubits; the colouring the heuristic leaves is arbitrary '
                   '(colours symbolic); unstubbed heuristic with arbitrary random draws on paths and stars',
          'thorough': 'as quick with lists of up to 4 pairs on 4 qubits'}
ASSUMPTIONS = ['the heuristic leaves some colour in range on every edge (this is C21) and reports truthfully whether it is proper']


def stub(env):
    ec = env.mod('edge_coloring')
    used = []

    def heuristic(G, D, repetition_limit, iteration_limit):
        es = sorted(tuple(sorted(e)) for e in G.edges())
        k = len(used)
        cols = {e: env.int('colour%d_%d_%d' % ((k,) + e), 0, D - 1) for e in es}
        used.append(cols)
        for (u, v), c in cols.items():
            G[u][v]['color'] = G[v][u]['color'] = c
        conds = []
        for e, f in itertools.combinations(es, 2):
            if set(e) & set(f):
                conds.append(cols[e] != cols[f])
        return bool(env.all(conds))
    ec.applyHeuristic = heuristic
    return env.mod('circuit_tools')


def verdict(env, edges, got, before):
    got = list(got)
    env.ok('not empty', len(got) > 0)
    env.ok('a subset', all(any(tuple(e) == tuple(f) for f in before) for e in got))
    nodes = [q for e in got for q in e]
    env.ok('no qubit occurs twice', len(nodes) == len(set(nodes)))
    allq = [q for e in before for q in e]
    if len(allq) == len(set(allq)):
        env.ok('everything when nothing overlaps', [tuple(e) for e in got] == before)
    env.ok('the list given is unchanged', [tuple(e) for e in edges] == before)
    env.out('selection', sorted(list(e) for e in got))


def pairs(env, n, first, count):
    ct = stub(env)
    ps = list(itertools.permutations(range(n), 2))
    edges = [first] + [env.choice('e%d' % k, ps) for k in range(1, count)]
    verdict(env, edges, ct.get_commuting_set(edges), list(edges))


def fixed(env, lists):
    ct = stub(env)
    edges = [tuple(e) for e in env.choice('list', lists)]
    verdict(env, edges, ct.get_commuting_set(edges), list(edges))


def real(env, lists):
    """with the heuristic as it is"""
    ct = env.mod('circuit_tools')
    edges = [tuple(e) for e in env.choice('list', lists)]
    verdict(env, edges, ct.get_commuting_set(edges), list(edges))


def scenarios(tier):
    out = [('singles', fixed, dict(lists=[[(0,)], [(1,), (0,)], [(2,), (0,), (3,)]])),
           ('one', fixed, dict(lists=[[(0, 1)], [(3, 1)]])),
           ('two', pairs, dict(n=4, first=(0, 1), count=2)), ('three', pairs, dict(n=4, first=(0, 1), count=3)),
           ('three_reversed', pairs, dict(n=4, first=(2, 1), count=3)),
           ('long', fixed, dict(lists=[
               [(0, 1), (1, 2), (2, 3), (3, 4)], [(0, 1), (1, 2), (2, 0), (3, 4)], [(0, 1), (0, 2), (0, 3), (0, 4)],
               [(0, 1), (1, 2), (2, 3), (3, 0), (1, 3)], [(0, 4), (0, 1), (1, 2), (2, 3), (3, 4)]])),
           ('heuristic', real, dict(lists=[[(0, 1), (1, 2)], [(0, 1), (1, 2), (2, 3)], [(0, 1), (0, 2), (0, 3)],
                                           [(1, 0), (0, 1)], [(0, 1), (2, 3), (3, 0)]]))]
    if tier == 'thorough':
        out += [('four_%d%d' % f, pairs, dict(n=4, first=f, count=4)) for f in ((0, 1), (2, 0))]
        out += [('five', fixed, dict(lists=[list(c) for c in itertools.combinations(
            itertools.combinations(range(5), 2), 5)][::7]))]
    return out
