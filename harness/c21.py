"""C21: edge colouring."""
import itertools
import networkx as nx

BOUNDS = {'quick': 'graphs on up to 5 vertices and 6 edges (paths, stars, cycles, diamond, K4, bull, disconnected); verdict: all colourings with '
                   'colours from -1 to D+1 (symbolic); one recolouring and one chain from every colouring; whole heuristic with every '
                   'sequence of random draws for repetition limit <= 1 and iteration limit <= 1',
          'thorough': 'as quick with repetition limit <= 3, iteration limit <= 2 and larger graphs'}
ASSUMPTIONS = ['recolouring and heuristic: at least as many colours as the largest degree, as the callers guarantee (the verdict: any number)']

GRAPHS = {'edge': [(0, 1)], 'path3': [(0, 1), (1, 2)], 'path4': [(0, 1), (1, 2), (2, 3)], 'star': [(0, 1), (0, 2), (0, 3)],
          'triangle': [(0, 1), (1, 2), (2, 0)], 'square': [(0, 1), (1, 2), (2, 3), (3, 0)],
          'diamond': [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)], 'two': [(0, 1), (2, 3)],
          'paw': [(0, 1), (1, 2), (2, 0), (2, 3)], 'k4': list(itertools.combinations(range(4), 2)),
          'path5': [(0, 1), (1, 2), (2, 3), (3, 4)], 'bull': [(0, 1), (1, 2), (2, 0), (1, 3), (2, 4)],
          'path5x': [(0, 1), (3, 4), (1, 2), (2, 3)], 'path6x': [(0, 1), (4, 5), (1, 2), (3, 4), (2, 3)],
          'hexagon': [(0, 1), (3, 4), (1, 2), (4, 5), (2, 3), (5, 0)],
          'pentagon': [(i, (i + 1) % 5) for i in range(5)]}


def graph(edges):
    g = nx.Graph()
    g.add_edges_from(edges)
    return g


def colour(env, g, edges, lo, hi):
    cols = {}
    for i, (u, v) in enumerate(edges):
        cols[(u, v)] = env.int('c%d' % i, lo, hi)
        g[u][v]['color'] = g[v][u]['color'] = cols[(u, v)]
    return cols


def read(g, edges):
    return {(u, v): g[u][v].get('color') for u, v in edges}


def proper(env, cols, D):
    cs = []
    for e, c in cols.items():
        if c is None:
            return False
        cs += [c >= 0, c <= D - 1]
    for (e, c), (f, d) in itertools.combinations(cols.items(), 2):
        if set(e) & set(f):
            cs.append(c != d)
    return env.all(cs)


def levels(env, g, cols):
    """vertex -> conflict level of the (concrete) colouring"""
    out = {}
    for u in g.nodes():
        at = [c for e, c in cols.items() if u in e]
        out[u] = len(at) - len(set(at))
    return out


def verdict(env, name, D):
    ec = env.mod('edge_coloring')
    g = graph(GRAPHS[name])
    cols = colour(env, g, GRAPHS[name], -1, D + 1)
    r = bool(ec.checkEdgeColoring(g, D))
    p = proper(env, cols, D)
    env.ok('accepted exactly when proper and in range', p if r else env.not_(p))
    env.out('verdict', r)


def consistent(env, label, g, cd, cols):
    lv = levels(env, g, cols)
    for k, nodes in cd.items():
        for u in nodes:
            env.ok(label + ': listed vertices have that level', lv.get(u) == k)
    for u, l in lv.items():
        env.ok(label + ': every conflicting vertex is listed once', sum(1 for k in cd if u in cd[k]) == (1 if l > 0 else 0))


def concrete_colours(env, g, edges, D):
    cols = {}
    for i, (u, v) in enumerate(edges):
        c = env.int('c%d' % i, 0, D - 1)
        c = c.__index__()
        cols[(u, v)] = c
        g[u][v]['color'] = g[v][u]['color'] = c
    return cols


def recolour(env, name, D, edge):
    ec = env.mod('edge_coloring')
    edges = GRAPHS[name]
    g = graph(edges)
    cols = concrete_colours(env, g, edges, D)
    cd = ec.createConflictDictionary(g, D)
    consistent(env, 'initial', g, cd, cols)
    old = levels(env, g, cols)
    env.ok('number of conflicts', ec.totalNumberOfConflicts(cd) == sum(old.values()))
    if sum(old.values()):
        env.ok('highest level', ec.maxConflictLevel(cd) == max(old.values()))
    u, v = edges[edge]
    if env.bool('reversed'):
        u, v = v, u
    new = env.int('new', 0, D - 1).__index__()
    r = ec.colorEdgeAndUpdate(g, u, v, new, cd)
    cols[edges[edge]] = new
    now = read(g, edges)
    env.ok('the edge has its colour and no other edge changes', all(now[e] == cols[e] for e in edges))
    consistent(env, 'after recolouring', g, cd, cols)
    env.ok('reported change of the level', r == levels(env, g, cols)[v] - old[v])
    env.out('change', r)


def chain(env, name, D):
    """one chain of recolourings from every colouring"""
    ec = env.mod('edge_coloring')
    edges = GRAPHS[name]
    g = graph(edges)
    cols = concrete_colours(env, g, edges, D)
    cd = ec.createConflictDictionary(g, D)
    lv = levels(env, g, cols)
    top = max(lv.values())
    env.assume(top > 0)
    node = env.choice('node', sorted(g.nodes()))
    env.assume(lv[node] == top)
    ec.KempeStart(g, D, node, cd)
    now = read(g, edges)
    env.ok('colours stay in range', all(c in range(D) for c in now.values()))
    consistent(env, 'after the chain', g, cd, now)
    env.out('colours', [now[e] for e in edges])


def precolour(env, name, D):
    ec = env.mod('edge_coloring')
    edges = GRAPHS[name]
    g = graph(edges)
    ec.preColoring(g, D)
    now = read(g, edges)
    env.ok('every edge has a colour in range', all(c in range(D) for c in now.values()))
    env.ok('both directions agree', all(g[u][v]['color'] == g[v][u]['color'] for u, v in edges))
    # greedy: in the order of the graph's edges, an edge may only conflict with an earlier one if no colour was free
    done = {}
    for e in g.edges():
        c = g[e[0]][e[1]]['color']
        used = set(d for f, d in done.items() if set(e) & set(f))
        env.ok('a free colour is taken when there is one', c not in used or used >= set(range(D)))
        done[e] = c
    env.out('colours', [now[e] for e in edges])


def whole(env, name, D, rep, it):
    ec = env.mod('edge_coloring')
    edges = GRAPHS[name]
    g = graph(edges)
    r = ec.applyHeuristic(g, D, rep, it)
    now = read(g, edges)
    env.ok('every edge has a colour in range', all(c in range(D) for c in now.values()))
    env.ok('the graph is unchanged', sorted(map(sorted, g.edges())) == sorted(sorted(e) for e in edges))
    p = all(now[e] != now[f] for e, f in itertools.combinations(edges, 2) if set(e) & set(f))
    env.ok('success is reported exactly for a proper colouring', bool(r) == p)
    env.out('result', [bool(r)] + [now[e] for e in edges])


def inner(env, name, D, rep):
    """the repetition loop from every colouring"""
    ec = env.mod('edge_coloring')
    edges = GRAPHS[name]
    g = graph(edges)
    concrete_colours(env, g, edges, D)
    r = ec.heuristic(g, D, rep)
    now = read(g, edges)
    env.ok('colours stay in range', all(c in range(D) for c in now.values()))
    p = all(now[e] != now[f] for e, f in itertools.combinations(edges, 2) if set(e) & set(f))
    env.ok('success is reported exactly for a proper colouring', bool(r) == p)
    env.out('result', [bool(r)] + [now[e] for e in edges])


OPTIONS = {k: {'max_paths': 60000} for k in ('verdict', 'recolour', 'chain', 'precolour', 'whole', 'inner')}


def scenarios(tier):
    out = []
    for n, D in (('edge', 1), ('edge', 2), ('path3', 2), ('star', 3), ('triangle', 2), ('two', 2),
                 ('path3', 1), ('star', 1), ('star', 2), ('triangle', 1)):
        out.append(('verdict_%s_%d' % (n, D), verdict, dict(name=n, D=D)))
    for n, D, e in (('path3', 2, 0), ('star', 3, 1), ('triangle', 2, 0), ('triangle', 3, 2), ('paw', 3, 2)):
        out.append(('recolour_%s_%d' % (n, D), recolour, dict(name=n, D=D, edge=e)))
    for n, D in (('path4', 2), ('star', 3), ('triangle', 2), ('square', 2), ('paw', 3), ('diamond', 3)):
        out.append(('chain_%s_%d' % (n, D), chain, dict(name=n, D=D)))
    for n, D in (('path4', 2), ('star', 3), ('triangle', 3), ('triangle', 2), ('diamond', 3), ('path5', 2), ('bull', 3), ('star', 4)):
        out.append(('precolour_%s_%d' % (n, D), precolour, dict(name=n, D=D)))
    for n, D, rep, it in (('edge', 2, 1, 1), ('path3', 2, 1, 1), ('path4', 2, 1, 1), ('star', 3, 1, 1), ('triangle', 3, 1, 1),
                          ('triangle', 2, 0, 0), ('square', 2, 0, 1), ('paw', 3, 1, 0), ('two', 2, 1, 1),
                          ('triangle', 2, 1, 1), ('square', 2, 1, 1), ('diamond', 3, 0, 0), ('path5', 2, 1, 1), ('k4', 3, 0, 0),
                          ('bull', 3, 0, 1), ('pentagon', 3, 0, 0), ('path5x', 2, 0, 0), ('path5x', 2, 1, 1), ('path6x', 2, 0, 1), ('hexagon', 2, 0, 0)):
        out.append(('whole_%s_%d_%d_%d' % (n, D, rep, it), whole, dict(name=n, D=D, rep=rep, it=it)))
    for n, D, rep in (('path4', 2, 1), ('star', 3, 0), ('triangle', 2, 1), ('square', 2, 0), ('triangle', 3, 0)):
        out.append(('inner_%s_%d_%d' % (n, D, rep), inner, dict(name=n, D=D, rep=rep)))
    if tier == 'thorough':
        out.append(('recolour_diamond_3', recolour, dict(name='diamond', D=3, edge=4)))
        for n, D in (('square', 2), ('paw', 3), ('diamond', 3)):
            out.append(('verdict_%s_%d' % (n, D), verdict, dict(name=n, D=D)))
        for n, D in (('path5', 2), ('bull', 3), ('pentagon', 3), ('k4', 3)):
            out.append(('chain_%s_%d' % (n, D), chain, dict(name=n, D=D)))
        for n, D, rep, it in (('diamond', 3, 1, 1), ('k4', 3, 1, 1), ('path6x', 2, 2, 1), ('hexagon', 2, 1, 1), ('pentagon', 2, 1, 0), ('pentagon', 3, 1, 1),
                              ('bull', 3, 1, 2), ('triangle', 2, 3, 1)):
            out.append(('whole_%s_%d_%d_%d' % (n, D, rep, it), whole, dict(name=n, D=D, rep=rep, it=it)))
        for n, D, rep in (('triangle', 3, 2), ('square', 2, 2), ('paw', 3, 1), ('star', 3, 2)):
            out.append(('inner_%s_%d_%d' % (n, D, rep), inner, dict(name=n, D=D, rep=rep)))
    return out
