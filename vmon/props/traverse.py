"""C05 traversals, C06 strong components, C07 orders and reachability,
C08 Dilworth decompositions."""
import itertools
from ..core import Prop
from .. import gens, oracles
from pads import dfs, bfs
from pads.strong_connectivity import StronglyConnectedComponents, Condensation
from pads import partial_order as po
from pads.acyclic_reachability import Reachability

# ---------------------------------------------------------------------------
C05 = Prop(
    'C05',
    rule='digraphs (exhaustive up to 3 vertices, random, deep) searched from '
         'all roots and from single roots; every trace event is replayed '
         'against a stack specification of depth-first search; non-trivial: '
         'at least 3 vertices and a tree and a non-tree edge',
    anchors=['pads/dfs.py', 'pads/bfs.py'],
    need={'calls': 500, 'trace_events': 5000, 'nontree': 100})


def any_digraph(rng, maxn=8):
    if rng.random() < .3:
        n, E = gens.small_undirected(rng, maxn)
        return n, sorted(set(E) | {(v, u) for u, v in E})
    return gens.small_digraph(rng, maxn)


def check_trace(c, G, trace, root, reach):
    """Replay DFS events (v, w, kind) against the specification."""
    visited = set()
    stack = []
    pending = {}
    roots = 0
    for ev in trace:
        c.event('trace_events')
        v, w, kind = ev
        if kind == dfs.forward:
            c.check(w not in visited, 'vertex entered twice', event=ev, G=G)
            if not stack:
                c.check(v == w, 'tree does not start with its root',
                        event=ev, G=G)
                c.check(root is None or v == root[0],
                        'search started somewhere else', event=ev, G=G)
                c.check(v in G, 'foreign root', event=ev)
                roots += 1
            else:
                c.check(v == stack[-1], 'edge does not leave the active '
                        'vertex', event=ev, G=G, stack=stack)
                c.check(w in pending[v], 'edge reported that is not an '
                        'unused edge of the graph', event=ev, G=G)
                pending[v].remove(w)
            visited.add(w)
            stack.append(w)
            pending[w] = list(G[w])
        elif kind == dfs.nontree:
            c.event('nontree')
            c.check(stack and v == stack[-1], 'non-tree edge does not leave '
                    'the active vertex', event=ev, G=G)
            c.check(w in visited, 'non-tree edge to an unvisited vertex',
                    event=ev, G=G)
            c.check(w in pending[v], 'non-tree edge that is not an unused '
                    'edge of the graph', event=ev, G=G)
            pending[v].remove(w)
        else:
            c.check(kind == dfs.reverse, 'unknown kind of edge', event=ev)
            c.check(stack and w == stack[-1], 'left a vertex that is not '
                    'active', event=ev, G=G)
            c.check(not pending[w], 'left a vertex before using its edges',
                    event=ev, G=G, left=pending[w])
            stack.pop()
            c.check(v == (stack[-1] if stack else w),
                    'returned to the wrong vertex', event=ev, G=G)
    c.check(not stack, 'search ended while vertices are active', G=G)
    c.eq(visited, set(G) if root is None else reach,
         'wrong set of visited vertices', G=G, root=root)
    if root is not None:
        c.eq(roots, 1, 'not exactly one root', G=G)
    return visited


def check_preorder(c, G, L, single):
    """L is a depth-first visiting order: each vertex extends the deepest
    active vertex that still has unvisited neighbours."""
    visited = set()
    stack = []
    for w in L:
        c.check(w not in visited, 'preorder repeats a vertex', G=G, L=L)
        while stack and all(x in visited for x in G[stack[-1]]):
            stack.pop()
        if stack:
            c.check(w in G[stack[-1]], 'preorder leaves depth-first order',
                    G=G, L=L, vertex=w)
        else:
            c.check(not single or not visited, 'preorder left the reachable '
                    'vertices', G=G, L=L)
        visited.add(w)
        stack.append(w)


def is_postorder(G, L, single, root=None):
    """Can a depth-first search produce the finishing order L?"""
    n = len(L)
    verts = [root] if single else list(G)

    # state: active stack, visited set, number of finished vertices
    def rec(stack, visited, done):
        if stack:
            v = stack[-1]
            opts = [w for w in G[v] if w not in visited]
            if not opts:
                if L[done] != v:
                    return False
                return rec(stack[:-1], visited, done + 1)
            return any(rec(stack + (w,), visited | {w}, done) for w in opts)
        if done == n:
            return True
        return any(rec((w,), visited | {w}, done) for w in verts
                   if w not in visited)
    return rec((), frozenset(), 0)


def check_postorder(c, G, L, reach, index, R, single, root=None):
    c.eq(len(set(L)), len(L), 'postorder repeats a vertex', G=G, L=L)
    c.eq(set(L), reach, 'postorder visits the wrong vertices', G=G, L=L)
    pos = {v: i for i, v in enumerate(L)}
    for v in L:
        for w in G[v]:
            if pos[w] > pos[v]:
                c.check(R[index[w]] >> index[v] & 1,
                        'an edge goes to a vertex finished later that is '
                        'no ancestor', edge=(v, w), G=G, L=L)
    if len(L) <= 6:
        c.check(is_postorder(G, L, single, root),
                'no depth-first search finishes vertices in this order',
                G=G, L=L)


class Recorder(dfs.Searcher):
    """Client of the search framework that records its callbacks."""

    def __init__(self, G):
        self.trace = []
        dfs.Searcher.__init__(self, G)

    def preorder(self, parent, child):
        self.trace.append((parent, child, dfs.forward))

    def postorder(self, parent, child):
        self.trace.append((parent, child, dfs.reverse))

    def backedge(self, source, destination):
        self.trace.append((source, destination, dfs.nontree))


def check_levels(c, G, root, index, A):
    levels = c.call(lambda: list(bfs.breadth_first_levels(G, root)))
    d = gens.bfs_dist(A, index[root])
    want = {}
    for v in G:
        i = index[v]
        if i in d:
            want.setdefault(d[i], {})[v] = {
                w for w in G[v] if d[index[w]] == d[i] + 1}
    got = [{v: set(L[v]) for v in L} for L in levels]
    c.eq(got, [want[k] for k in range(len(want))],
         'wrong breadth-first levels', G=G, root=root)


def run_c05(c, g):
    G = g.graph
    c.note('graph', G)
    A = g.adj()
    R = gens.closure(g.n, gens.masks(g.n, g.edges, True))
    names = g.names
    c.guard(G)
    trace = c.call(lambda: list(dfs.search(G)))
    check_trace(c, G, trace, None, None)
    c.event('roots_all')
    pre = c.call(lambda: list(dfs.preorder(G)))
    c.eq(set(pre), set(G), 'preorder misses vertices', G=G, L=pre)
    check_preorder(c, G, pre, False)
    post = c.call(lambda: list(dfs.postorder(G)))
    check_postorder(c, G, post, set(G), g.index, R, False)
    check_trace(c, G, c.call(Recorder, G).trace, None, None)
    kinds = {k for _, _, k in trace}
    if g.n >= 3 and dfs.nontree in kinds and len(g.edges) > 2:
        c.nontrivial(g.key())
    picks = range(g.n) if g.n <= 6 else c.rng.sample(range(g.n), 3)
    for i in picks:
        v = names[i]
        reach = {names[j] for j in gens.bits(R[i])}
        check_trace(c, G, c.call(lambda: list(dfs.search(G, v))), (v,),
                    reach)
        pre = c.call(lambda: list(dfs.preorder(G, v)))
        c.eq(set(pre), reach, 'preorder from a vertex misses vertices',
             G=G, root=v, L=pre)
        c.eq(pre[0], v, 'preorder does not start at its root', L=pre)
        check_preorder(c, G, pre, True)
        post = c.call(lambda: list(dfs.postorder(G, v)))
        check_postorder(c, G, post, reach, g.index, R, True, v)
        c.eq(post[-1], v, 'postorder does not end at its root', L=post)
        for w in names:
            c.eq(bool(c.call(dfs.reachable, G, v, w, pure=False)),
                 w in reach, 'wrong reachability', G=G, v=v, w=w)
        check_levels(c, G, v, g.index, A)
    c.release()


@C05.driver(600, 7000)
def small(c):
    if c.i < 16:
        idx = gens.digraph_number(2, c.i)
    elif c.i < 80:
        idx = gens.digraph_number(3, c.rng.randrange(512))
    else:
        idx = any_digraph(c.rng, 7)
    g = gens.build(c.rng, *idx, directed=True)
    c.sample(g)
    run_c05(c, g)


@C05.driver(60, 600)
def medium(c):
    n = c.rng.randint(10, 40)
    idx = gens.random_digraph(c.rng, n, c.rng.choice([.02, .05, .1, .3]))
    run_c05(c, gens.build(c.rng, *idx, directed=True))


@C05.driver(8, 60)
def big(c):
    run_c05(c, gens.build(c.rng, *gens.big_digraph(c.rng), directed=True,
                          kinds=gens.FAST_KINDS))


@C05.driver(15, 90, fixed=True)
def huge(c):
    g = gens.relabel(c.rng, gens.huge_digraph(c.rng, 600, c.i))
    run_c05(c, gens.build(c.rng, *g, directed=True, kinds=gens.FAST_KINDS))


@C05.driver(6, 24)
def deep(c):
    """Paths and trees much deeper than the interpreter's recursion limit."""
    rng = c.rng
    n = rng.choice([2500, 6000])
    E = [(i, i + 1) for i in range(n - 1)]
    if c.i % 3 == 1:
        E += [(i + 1, i) for i in range(n - 1)]
    if c.i % 3 == 2:
        E += [(n - 1, 0)] + [(i, i // 2) for i in range(2, n, 97)]
    g = gens.build(rng, n, E, directed=True, kind='int')
    G = g.graph
    check_trace(c, G, c.call(lambda: list(dfs.search(G))), None, None)
    reach = set(range(n))
    check_trace(c, G, c.call(lambda: list(dfs.search(G, 0))), (0,), reach)
    check_preorder(c, G, c.call(lambda: list(dfs.preorder(G, 0))), True)
    post = c.call(lambda: list(dfs.postorder(G, 0)))
    c.eq(set(post), reach, 'postorder on a deep graph')
    check_levels(c, G, 0, g.index, g.adj())
    c.check(c.call(dfs.reachable, G, 0, n - 1), 'deep reachability')
    c.nontrivial('deep', c.i, n)


# ---------------------------------------------------------------------------
C06 = Prop(
    'C06',
    rule='digraphs (exhaustive up to 3 vertices, random around the giant '
         'component threshold, nested cycles) compared with mutual '
         'reachability computed by transitive closure; non-trivial: at least '
         'two components, one of them with two or more vertices',
    anchors=['pads/strong_connectivity.py', 'pads/dfs.py'],
    need={'calls': 500})


def run_c06(c, g):
    G, names, n = g.graph, g.names, g.n
    c.note('graph', G)
    R = gens.closure(n, gens.masks(n, g.edges, True))
    cls = {}
    for i in range(n):
        cls[names[i]] = frozenset(
            names[j] for j in gens.bits(R[i]) if R[j] >> i & 1)
    want = set(cls.values())
    S = c.call(StronglyConnectedComponents, G)
    got = list(S)
    c.eq(len(S), len(want), 'wrong number of components', G=G)
    c.eq(len(got), len(want), 'wrong number of components', G=G)
    c.eq({frozenset(C) for C in got}, want, 'wrong components', G=G)
    for C in got:
        vs = set(C)
        for v in C:
            c.eq(set(C[v]), set(G[v]) & vs, 'component is not the induced '
                 'subgraph', G=G, component=C)
    c.eq([frozenset(C) for C in S], [frozenset(C) for C in got],
         'second iteration differs', G=G)
    D = c.call(Condensation, G)
    edges = {C: set() for C in want}
    for v in G:
        for w in G[v]:
            if cls[v] != cls[w]:
                edges[cls[v]].add(cls[w])
    c.eq({frozenset(C): {frozenset(x) for x in D[C]} for C in D}, edges,
         'wrong condensation', G=G)
    if len(want) > 1 and len(want) < n:
        c.nontrivial(g.key())


@C06.driver(1200, 15000)
def scc_small(c):
    if c.i < 16:
        idx = gens.digraph_number(2, c.i)
    elif c.i < 528:
        idx = gens.digraph_number(3, c.i - 16)
    else:
        idx = any_digraph(c.rng, 9)
    g = gens.build(c.rng, *idx, directed=True)
    c.sample(g)
    run_c06(c, g)


@C06.driver(150, 2000)
def scc_medium(c):
    rng = c.rng
    n = rng.randint(10, 60)
    if rng.random() < .5:
        idx = gens.random_digraph(rng, n, rng.choice([.5, 1, 1.5, 2]) / n,
                                  True)
    else:                       # cycles joined by one-way and nested edges
        E = set()
        v = 0
        starts = []
        while v < n:
            k = min(n - v, rng.randint(1, 6))
            starts.append(v)
            if k > 1:
                E |= {(v + i, v + (i + 1) % k) for i in range(k)}
            v += k
        for _ in range(n // 2):
            a, b = rng.randrange(n), rng.randrange(n)
            if rng.random() < .9:
                a, b = min(a, b), max(a, b)
            if a != b:
                E.add((a, b))
        idx = n, sorted(E)
    run_c06(c, gens.build(rng, *idx, directed=True))


@C06.driver(16, 120)
def scc_big(c):
    run_c06(c, gens.build(c.rng, *gens.big_digraph(c.rng), directed=True,
                          kinds=gens.FAST_KINDS))


@C06.driver(15, 90, fixed=True)
def scc_huge(c):
    g = gens.relabel(c.rng, gens.huge_digraph(c.rng, 900, c.i))
    run_c06(c, gens.build(c.rng, *g, directed=True, kinds=gens.FAST_KINDS))


@C06.driver(4, 16)
def scc_deep(c):
    n = c.rng.choice([2000, 4000])
    E = [(i, i + 1) for i in range(n - 1)]
    if c.i % 2:
        E.append((n - 1, n // 3))
    g = gens.build(c.rng, n, E, directed=True, kind='int')
    want = n if c.i % 2 == 0 else n // 3 + 1
    S = c.call(StronglyConnectedComponents, g.graph)
    c.eq(len(list(S)), want, 'wrong components of a long path')
    c.eq(len(c.call(Condensation, g.graph)), want, 'condensation of a long '
         'path')
    c.nontrivial(c.i, n)


# ---------------------------------------------------------------------------
C07 = Prop(
    'C07',
    rule='acyclic and cyclic digraphs; orders checked edge by edge, '
         'order recognition fed with permutations, prefixes, repetitions and '
         'foreign items, reachability compared with transitive closure; '
         'non-trivial: at least 3 vertices and 2 edges',
    anchors=['pads/partial_order.py', 'pads/acyclic_reachability.py'],
    need={'calls': 1000, 'cyclic': 100, 'acyclic': 100,
          'orders_rejected': 100, 'orders_accepted': 100})


def valid_order(G, L):
    if len(L) != len(G) or set(L) != set(G):
        return False
    pos = {v: i for i, v in enumerate(L)}
    return all(pos[w] > pos[v] for v in G for w in G[v])


def run_c07(c, g):
    rng = c.rng
    G, names, n = g.graph, g.names, g.n
    c.note('graph', G)
    R = gens.closure(n, gens.masks(n, g.edges, True))
    acyclic = all(u != v and not R[v] >> u & 1 for u, v in g.edges)
    c.event('acyclic' if acyclic else 'cyclic')
    c.eq(bool(c.call(po.isAcyclic, G)), acyclic, 'wrong acyclicity', G=G)
    if acyclic:
        L = list(c.call(po.TopologicalOrder, G))
        c.check(valid_order(G, L), 'not a topological order', G=G, L=L)
        X = c.call(Reachability, G)
        for i in range(n):
            for j in range(n):
                c.eq(bool(X.reachable(names[i], names[j])),
                     bool(R[i] >> j & 1), 'wrong reachability', G=G,
                     source=names[i], target=names[j])
    else:
        c.raises(ValueError, po.TopologicalOrder, G)
        L = list(G)
    T = c.call(po.TransitiveClosure, G)
    c.eq({v: set(T[v]) for v in T},
         {names[i]: {names[j] for j in gens.bits(R[i]) if j != i}
          for i in range(n)}, 'wrong transitive closure', G=G)
    # recognition of topological orders
    tries = [list(L), list(reversed(L)), list(L)[:-1], list(L) + list(L)[-1:],
             list(L)[1:] + list(L)[:1], [], list(L) * 2,
             list(L) + ['no such vertex']]
    for _ in range(3):
        x = list(L)
        if len(x) > 1:
            i, j = rng.randrange(n), rng.randrange(n)
            x[i], x[j] = x[j], x[i]
        tries.append(x)
        x = list(L)
        if x:
            x[rng.randrange(len(x))] = rng.choice(x)
        tries.append(x)
        x = list(L)
        rng.shuffle(x)
        tries.append(x)
    for x in tries:
        want = valid_order(G, x)
        if rng.random() < .3:
            x = tuple(x)
        c.event('orders_accepted' if want else 'orders_rejected')
        c.eq(bool(c.call(po.isTopologicalOrder, G, x)), want,
             'wrong verdict on a topological order', G=G, L=x)
    if n >= 3 and len(g.edges) >= 2:
        c.nontrivial(g.key())


@C07.driver(900, 12000)
def orders_small(c):
    rng = c.rng
    if c.i < 256:
        idx = gens.digraph_number(3, c.i * 2 + rng.randrange(2))
    elif rng.random() < .5:
        idx = gens.any_dag(rng, rng.randint(0, 8))
    else:
        idx = any_digraph(rng, 7)
    g = gens.build(rng, *idx, directed=True)
    c.sample(g)
    run_c07(c, g)


@C07.driver(60, 800)
def orders_medium(c):
    rng = c.rng
    n = rng.randint(20, 80)
    n, E = gens.any_dag(rng, n)
    if rng.random() < .3 and E:
        u, v = rng.choice(E)
        E = sorted(set(E) | {(v, u)})
    run_c07(c, gens.build(rng, n, E, directed=True))


@C07.driver(10, 80)
def orders_big(c):
    run_c07(c, gens.build(c.rng, *gens.big_digraph(c.rng, 120),
                          directed=True, kinds=gens.FAST_KINDS))


@C07.driver(15, 90, fixed=True)
def orders_huge(c):
    g = gens.relabel(c.rng, gens.huge_digraph(c.rng, 400, c.i))
    run_c07(c, gens.build(c.rng, *g, directed=True, kinds=gens.FAST_KINDS))


@C07.driver(3, 12)
def orders_deep(c):
    n = 3000
    E = [(i, i + 1) for i in range(n - 1)]
    g = gens.build(c.rng, n, E, directed=True, kind='shuffled')
    L = list(c.call(po.TopologicalOrder, g.graph))
    c.eq(L, g.names, 'order of a long path')
    c.check(c.call(po.isAcyclic, g.graph), 'a long path is acyclic')
    R = c.call(Reachability, g.graph)
    for _ in range(200):
        i, j = c.rng.randrange(n), c.rng.randrange(n)
        c.eq(bool(R.reachable(g.names[i], g.names[j])), i <= j,
             'reachability on a long path')


# ---------------------------------------------------------------------------
C08 = Prop(
    'C08',
    rule='acyclic digraphs; the chain cover and the antichain certify each '
         'other (equal sizes), the path cover is compared with the vertices '
         'minus a maximum split matching computed independently; '
         'non-trivial: width at least 2 and at least one comparable pair',
    anchors=['pads/partial_order.py', 'pads/bipartite_matching.py'],
    need={'calls': 400, 'cyclic_rejected': 20})


def cover(c, G, paths, ok, what):
    seen = set()
    for P in paths:
        P = list(P)
        c.check(P, what + ': empty path', G=G)
        for v in P:
            c.check(v in G and v not in seen, what + ': vertex repeated or '
                    'foreign', G=G, paths=paths)
            seen.add(v)
        for v, w in zip(P, P[1:]):
            c.check(ok(v, w), what + ': consecutive vertices not related',
                    pair=(v, w), G=G, paths=paths)
    c.eq(seen, set(G), what + ': vertices missing', G=G, paths=paths)


def run_c08(c, g):
    G, n = g.graph, g.n
    c.note('graph', G)
    idx = g.index
    R = gens.closure(n, gens.masks(n, g.edges, True))
    c.guard(G)
    paths = c.call(lambda: [list(p) for p in po.MinimumPathDecomposition(G)])
    cover(c, G, paths, lambda v, w: w in G[v], 'path cover')
    split = {v: list(G[v]) for v in G}
    c.eq(len(paths), n - len(oracles.kuhn(split)), 'path cover is not '
         'minimum', G=G, paths=paths)
    chains = c.call(lambda: [list(p) for p in
                             po.MinimumChainDecomposition(G)])
    cover(c, G, chains, lambda v, w: R[idx[v]] >> idx[w] & 1, 'chain cover')
    A = list(c.call(po.MaximumAntichain, G))
    c.eq(len(set(A)), len(A), 'antichain repeats a vertex', A=A)
    for v, w in itertools.combinations(A, 2):
        i, j = idx[v], idx[w]
        c.check(not R[i] >> j & 1 and not R[j] >> i & 1,
                'antichain contains comparable vertices', G=G, A=A,
                pair=(v, w))
    c.eq(len(A), len(chains), 'antichain and chain cover differ in size',
         G=G, A=A, chains=chains)
    c.release()
    if len(A) >= 2 and len(A) < n:
        c.nontrivial(g.key())


@C08.driver(700, 9000)
def dilworth_small(c):
    rng = c.rng
    if c.i < 64:
        n, E = gens.graph_number(4, c.i)
        idx = gens.relabel(rng, (n, E))
        idx = n, E
    else:
        idx = gens.any_dag(rng, rng.randint(0, 10))
    g = gens.build(rng, *idx, directed=True)
    c.sample(g)
    run_c08(c, g)


@C08.driver(60, 800)
def dilworth_structured(c):
    rng = c.rng
    k = rng.randrange(6)
    if k == 0:                                  # boolean lattice
        n, E = gens.hypercube(rng.randint(2, 5))
    elif k == 1:                                # grid poset
        n, E = gens.grid(rng.randint(2, 6), rng.randint(2, 6))
    elif k == 2:                                # divisibility
        n = rng.randint(5, 40)
        E = [(i, j) for i in range(n) for j in range(i + 1, n)
             if (j + 1) % (i + 1) == 0]
    else:
        n, E = gens.any_dag(rng, rng.randint(15, 40))
    run_c08(c, gens.build(rng, n, E, directed=True))


@C08.driver(8, 60)
def dilworth_big(c):
    rng = c.rng
    n, E = gens.relabel(rng, gens.big_undirected(rng, 100))
    run_c08(c, gens.build(rng, n, sorted((min(e), max(e)) for e in E),
                          directed=True, kinds=gens.FAST_KINDS))


@C08.driver(150, 2000)
def dilworth_nearly_closed(c):
    """Orders given by all their relations but a few."""
    rng = c.rng
    if rng.random() < .5:               # layers, some of a single item
        E = []
        last = []
        n = 0
        for _ in range(rng.randint(2, 4)):
            new = list(range(n, n + rng.choice([1, 1, 2, 3, 4])))
            n += len(new)
            E += [(u, v) for u in last for v in new]
            last = new
        cover = set(E)
    else:
        n, E = gens.any_dag(rng, rng.randint(4, 14))
        cover = set(E)
    R = gens.closure(n, gens.masks(n, E, True))
    E = [(u, v) for u in range(n) for v in range(n)
         if u != v and R[u] >> v & 1]
    if rng.random() < .5:               # other relations to few items only
        K = {v for v in range(n) if rng.random() < .5}
        E = [e for e in E if e in cover or e[1] in K]
    for _ in range(min(len(E), rng.choice([0, 1, 1, 2, 3]))):
        E.pop(rng.randrange(len(E)))
    run_c08(c, gens.build(rng, n, E, directed=True))


@C08.driver(60, 400)
def antichain_cyclic(c):
    n, E = any_digraph(c.rng, 6)
    R = gens.closure(n, gens.masks(n, E, True))
    if all(u != v and not R[v] >> u & 1 for u, v in E):
        n, E = 3, [(0, 1), (1, 2), (2, 0)]
    g = gens.build(c.rng, n, E, directed=True)
    c.raises(ValueError, po.MaximumAntichain, g.graph)
    c.event('cyclic_rejected')


PROPS = [C05, C06, C07, C08]
