"""C04 Hamiltonian cycles, C22 range minima and common ancestors,
C23/C24 Halin and D3-reducible graphs, C25 media, C26 partial cubes,
C27 two-satisfiability, C28 symbolic negation."""
import itertools
from ..core import Prop
from .. import gens, oracles
from pads.cubic_ham import hamiltonian_cycles
from pads import lca
from pads import halin
from pads import medium as med
from pads import partial_cube as pc
from pads import two_satisfiability as sat
from pads._not import Not, SymbolicNegation, DoubleNegationError


def cycle_edges(c, C, G, what='cycle'):
    """Check that C is a Hamiltonian cycle of G; return its edges."""
    c.eq(set(C), set(G), what + ' has other vertices', C=C, G=G)
    for v in C:
        c.eq(len(C[v]), 2, what + ' is not 2-regular', C=C, G=G)
        for w in C[v]:
            c.check(w in G[v], what + ' uses a non-edge', edge=(v, w), C=C,
                    G=G)
            c.check(v in C[w], what + ' is not symmetric', C=C, G=G)
    s = next(iter(C))
    seen = {s}
    todo = [s]
    while todo:
        for w in C[todo.pop()]:
            if w not in seen:
                seen.add(w)
                todo.append(w)
    c.eq(len(seen), len(G), what + ' does not visit all vertices', C=C, G=G)
    return frozenset(frozenset((v, w)) for v in C for w in C[v])


# ---------------------------------------------------------------------------
C04 = Prop(
    'C04',
    rule='graphs of maximum degree three (random cubic, subdivided, with '
         'triangles and parallel-producing contractions, disconnected, with '
         'bridges) compared with all Hamiltonian cycles found by path '
         'extension; non-trivial: at least one cycle found, or a cubic graph '
         'without any',
    anchors=['pads/cubic_ham.py', 'pads/biconnectivity.py',
             'pads/cardinality_matching.py'],
    need={'calls': 300, 'cycles': 500, 'rejections': 30})


def subdivide(rng, g, k):
    n, E = g
    E = list(E)
    for _ in range(k):
        if not E:
            break
        u, v = E.pop(rng.randrange(len(E)))
        E += [(u, n), (v, n)]
        n += 1
    return n, E


def truncate(rng, g, k):
    """Replace up to k degree-three vertices by triangles."""
    n, E = g
    for _ in range(k):
        A = gens.adjacency(n, E)
        T = [v for v in range(n) if len(A[v]) == 3]
        if not T:
            break
        v = rng.choice(T)
        a, b, d = sorted(A[v])
        E = [e for e in E if v not in e] + [
            (v, a), (n, b), (n + 1, d), (v, n), (v, n + 1), (n, n + 1)]
        n += 2
    return n, [(min(e), max(e)) for e in E]


def subcubic(rng, maxn):
    k = rng.randrange(11)
    n = 2 * rng.randint(2, maxn // 2)
    if k < 3:
        g = gens.random_cubic(rng, n) or gens.complete(4)
    elif k == 3:
        g = gens.prism(max(3, n // 2))
    elif k == 4:
        g = gens.moebius(max(2, n // 2))
    elif k == 5:
        g = gens.ladder(max(2, n // 2))
    elif k == 6:
        g = gens.petersen()
    elif k == 7:
        g = gens.cycle(rng.randint(3, maxn))
    elif k == 8:
        g = gens.union(gens.complete(4), gens.cycle(rng.randint(3, 5)))
    elif k == 9:
        g = gens.complete_bipartite(rng.choice([2, 3]), 3)
    else:                               # random subgraph of a cubic graph
        m, E = gens.random_cubic(rng, n) or gens.complete(4)
        g = m, [e for e in E if rng.random() < .85]
    r = rng.random()
    if r < .25:
        g = subdivide(rng, g, rng.randint(1, 3))
    elif r < .45:
        g = truncate(rng, g, rng.randint(1, 3))
    elif r < .6:
        g = subdivide(rng, truncate(rng, g, rng.randint(1, 2)),
                      rng.randint(1, 2))
    elif r < .65:                       # remove an edge, leaving degree two
        m, E = g
        E = list(E)
        if E:
            E.pop(rng.randrange(len(E)))
        g = m, E
    return gens.relabel(rng, g)


def run_c04(c, idx):
    g = gens.build(c.rng, *idx)
    G, names = g.graph, g.names
    c.note('graph', G)
    want = {frozenset(frozenset((names[u], names[v])) for u, v in C)
            for C in oracles.hamiltonian_cycles(g.n, g.edges)}
    got = []
    c.guard(G)
    it = c.call(hamiltonian_cycles, G)
    for C in it:
        got.append(cycle_edges(c, C, G))
        c.check(len(got) <= len(want), 'more cycles than exist', G=G)
        c.event('cycles')
    c.release()
    c.eq(len(set(got)), len(got), 'a cycle is generated twice', G=G)
    c.eq(set(got), want, 'cycles are missing', G=G)
    if want or (g.n >= 4 and min(map(len, g.adj())) == 3):
        c.nontrivial(g.key())


@C04.driver(500, 6000)
def ham_small(c):
    idx = subcubic(c.rng, 12)
    if idx[0] > 18:
        idx = gens.petersen()
    c.sample(idx)
    run_c04(c, idx)


@C04.driver(40, 500)
def ham_larger(c):
    idx = subcubic(c.rng, 18)
    if idx[0] > 24:
        idx = gens.prism(9)
    run_c04(c, idx)


@C04.driver(24, 240)
def ham_many(c):
    """Graphs beyond listing by brute force: the number of cycles is counted
    by a sweep."""
    rng = c.rng
    k = c.i % 8
    if k == 0:
        idx = gens.prism(rng.randint(10, 45))
    elif k == 1:
        idx = gens.moebius(rng.randint(10, 45))
    elif k == 2:
        idx = gens.ladder(rng.randint(10, 60))
    elif k == 3:
        idx = gens.random_cubic(rng, 2 * rng.randint(12, 15)) or \
            gens.prism(13)
    elif k == 4:
        idx = gens.petersen(rng.randint(8, 14), rng.randint(1, 3))
    elif k == 5:                            # long cycle with few chords
        n = rng.randint(30, 200)
        V = rng.sample(range(n), 2 * rng.randint(1, 9))
        E = set(gens.cycle(n)[1])
        E |= {(min(a, b), max(a, b)) for a, b in zip(V[::2], V[1::2])}
        idx = n, sorted(E)
    elif k == 6:
        idx = truncate(rng, gens.prism(rng.randint(3, 7)), rng.randint(3, 9))
    else:
        idx = gens.random_cubic(rng, 2 * rng.randint(6, 10))
        idx = subdivide(rng, idx or gens.prism(8), rng.randint(5, 60))
    if rng.random() < .2:
        E = list(idx[1])
        E.pop(rng.randrange(len(E)))
        idx = idx[0], E
    want = oracles.hamiltonian_count(*idx)
    if want is None or want > 3000:
        return
    g = gens.build(rng, *gens.relabel(rng, idx))
    c.note('graph', g.graph)
    got = set()
    count = 0
    for C in c.call(hamiltonian_cycles, g.graph):
        got.add(cycle_edges(c, C, g.graph))
        count += 1
        c.check(count <= want, 'more cycles than exist', G=g)
        c.event('cycles')
    c.eq(len(got), want, 'cycles are missing or repeated', G=g)
    c.nontrivial(g.key())


@C04.driver(80, 800)
def ham_rejected(c):
    rng = c.rng
    k = rng.randrange(4)
    if k == 0:
        g = gens.build(rng, *gens.complete(rng.randint(5, 6))).graph
    elif k == 1:
        n, E = gens.star(rng.randint(5, 8))
        g = gens.build(rng, n, E).graph
    elif k == 2:
        g = {}
    else:
        n, E = gens.prism(rng.randint(3, 5))
        D = set(E) | {(v, u) for u, v in E}
        D.discard(rng.choice(sorted(D)))
        g = gens.build(rng, n, sorted(D), directed=True).graph
    c.raises(ValueError, lambda: list(hamiltonian_cycles(g)))


# ---------------------------------------------------------------------------
C22 = Prop(
    'C22',
    rule='sequences with ties and long monotone runs queried over all '
         'slices, and trees of every shape (paths deeper than the recursion '
         'limit, stars, random) with arbitrary hashable nodes queried over '
         'pairs and larger sets, against direct minima and ancestor walks; '
         'non-trivial: at least 4 elements or nodes',
    anchors=['pads/lca.py'],
    need={'range_queries': 5000, 'lca_queries': 5000, 'rejections': 30})


def range_checks(c, R, X, all_pairs, neg):
    rng = c.rng
    n = len(X)
    P = [(i, j) for i in range(n) for j in range(i + 1, n + 1)]
    if not all_pairs and len(P) > 200:
        P = rng.sample(P, 200)
    for i, j in P:
        c.event('range_queries')
        got = R[i:j]
        c.eq(got, min(X[i:j]), 'wrong range minimum', X=X, i=i, j=j,
             kind=type(R).__name__)
    if neg and n:
        for _ in range(10):
            i = rng.choice([None, -rng.randint(1, n), rng.randrange(n)])
            j = rng.choice([None, -rng.randint(0, n - 1) or None,
                            rng.randint(0, n), n + 5])
            S = X[i:j]
            if S:
                c.eq(R[i:j], min(S), 'wrong minimum of a slice', X=X, i=i,
                     j=j, kind=type(R).__name__)
    for it in (slice(0, n, 2), slice(None, None, -1), slice(None, None, 3),
               slice(0, n, n + 1), 0, n - 1):
        c.raises(ValueError, R.__getitem__, it)
    if neg and n:
        c.eq(R[0:n:1], min(X), 'wrong minimum for step one', X=X)


@C22.driver(300, 4000)
def range_minima(c):
    rng = c.rng
    n = rng.choice([1, 2, 3, 4, 5, 8, 9, 15, 16, 17, 31, 33, 64, 70])
    k = rng.randrange(7)
    if k == 0:
        X = [rng.randint(0, 3) for _ in range(n)]
    elif k == 1:
        X = list(range(n))
    elif k == 2:
        X = list(range(n, 0, -1))
    elif k == 3:
        X = [7] * n
    elif k == 4:
        X = [rng.random() for _ in range(n)]
    elif k == 5:
        X = [rng.choice('abcx') * rng.randint(0, 2) for _ in range(n)]
    else:
        X = [(rng.randint(0, 2), rng.randint(0, 2)) for _ in range(n)]
    if rng.random() < .2:
        X = tuple(X)
    c.note('X', X)
    c.sample(X)
    all_pairs = n <= 20
    R = c.call(lca.RangeMin, X)
    range_checks(c, R, list(X), all_pairs, True)
    c.eq(len(R), n, 'wrong length')
    i = rng.randrange(n)
    c.eq(R[i:i], None, 'empty range has a minimum', X=X)
    range_checks(c, c.call(lca.LogarithmicRangeMin, X), list(X), all_pairs,
                 True)
    range_checks(c, c.call(lca.PrecomputedRangeMin, X), list(X), all_pairs,
                 True)
    c.eq(c.call(lca.PrefixMinima, list(X)),
         [min(X[:i + 1]) for i in range(n)], 'wrong prefix minima', X=X)
    c.eq(c.call(lca.PrefixMinima, list(X), True),
         [min(X[i:]) for i in range(n)], 'wrong suffix minima', X=X)
    # unit steps
    Y = [rng.randint(-3, 3)]
    bias = rng.choice([.5, .2, .9])
    for _ in range(n - 1):
        Y.append(Y[-1] + (1 if rng.random() < bias else -1))
    range_checks(c, c.call(lca.RestrictedRangeMin, Y), Y, all_pairs, True)
    if n >= 4:
        c.nontrivial(n, X)


@C22.driver(4, 40)
def range_minima_long(c):
    rng = c.rng
    n = rng.choice([513, 600, 1024, 1025, 2000, 2049, 3000, 4097])
    k = rng.randrange(3)
    if k == 0:
        X = [rng.randrange(n) for _ in range(n)]
    elif k == 1:                # minima further and further apart
        X = [i + rng.randrange(3) for i in range(n)]
    else:
        X = [n - i + rng.randrange(50) for i in range(n)]
    Y = [0]
    bias = rng.choice([.5, .3, .7])
    for _ in range(n - 1):
        Y.append(Y[-1] + (1 if rng.random() < bias else -1))
    c.sample(n)
    for R, Z in ((c.call(lca.RangeMin, X), X),
                 (c.call(lca.LogarithmicRangeMin, X), X),
                 (c.call(lca.RestrictedRangeMin, Y), Y)):
        c.eq(len(R), n, 'wrong length')
        for _ in range(400):
            m = rng.choice([1, 2, 7, 60, 500, n])
            i = rng.randrange(n)
            j = min(n, i + rng.randint(1, m))
            c.eq(R[i:j], min(Z[i:j]), 'wrong minimum', n=n, i=i, j=j)
            c.event('ranges')
    c.nontrivial(n, k, X[0])


def tree_parents(rng, n):
    """Parent indices of a random tree, root 0."""
    k = rng.randrange(7)
    p = [None] * n
    for i in range(1, n):
        if k == 0:
            p[i] = i - 1
        elif k == 1:
            p[i] = 0
        elif k == 2:
            p[i] = (i - 1) // 2
        elif k == 3:
            p[i] = rng.randrange(max(0, i - 3), i)
        elif k == 4:
            p[i] = i - 1 if i % 2 else max(0, i - 2)
        else:
            p[i] = rng.randrange(i)
    return p


@C22.driver(350, 4500)
def ancestors(c):
    rng = c.rng
    n = rng.choice([2, 3, 4, 5, 6, 8, 12, 20, 40])
    p = tree_parents(rng, n)
    names = gens.labels(rng, n)
    order = list(range(1, n))
    rng.shuffle(order)
    T = {gens.copy_label(names[i]): gens.copy_label(names[p[i]])
         for i in order}
    c.note('tree', T)
    c.sample(T)

    def anc(i):
        out = []
        while i is not None:
            out.append(i)
            i = p[i]
        return out

    def want(*xs):
        common = set(anc(xs[0]))
        for x in xs[1:]:
            common &= set(anc(x))
        for i in anc(xs[0]):
            if i in common:
                return names[i]

    L = c.call(lca.LCA, T)
    L2 = c.call(lca.LCA, T, lca.LogarithmicRangeMin)
    pairs = [(i, j) for i in range(n) for j in range(n)]
    if len(pairs) > 150:
        pairs = rng.sample(pairs, 150)
    for i, j in pairs:
        c.event('lca_queries')
        w = want(i, j)
        for S in (L, L2):
            c.eq(c.call(S, names[i], names[j], pure=False), w,
                 'wrong common ancestor', T=T, x=names[i], y=names[j])
    for t in range(16):
        xs = [rng.randrange(n) for _ in range(rng.choice([1, 3, 4, 6]))]
        if t == 15:                         # many close nodes, one far away
            x = rng.randrange(n)
            xs = [rng.randint(max(0, x - 3), x)
                  for _ in range(rng.randint(7, 90))]
            xs.insert(rng.choice([0, len(xs), rng.randrange(len(xs))]),
                      rng.randrange(n))
        for S in (L, L2):
            c.eq(c.call(S, *[names[x] for x in xs], pure=False), want(*xs),
                 'wrong common ancestor of several nodes', T=T,
                 nodes=[names[x] for x in xs])
    q = [(names[i], names[j]) for i, j in
         rng.sample(pairs, min(len(pairs), 25))]
    O = c.call(lca.OfflineLCA, T, rng.choice([list, tuple, set])(q))
    idx = {v: i for i, v in enumerate(names)}
    for x, y in q:
        c.event('lca_queries')
        w = want(idx[x], idx[y])
        c.eq(O[x][y], w, 'wrong offline common ancestor', T=T, x=x, y=y)
        c.eq(O[y][x], w, 'offline common ancestor is not symmetric', T=T,
             x=x, y=y)
    if n >= 4:
        c.nontrivial(p)
    # not trees
    bad = dict(T)
    k = rng.randrange(3)
    if k == 0:
        bad['extra child'] = 'another root'
        c.raises(ValueError, lca.OfflineLCA, bad, [])
    elif k == 1:
        bad[names[0]] = names[rng.randrange(n)]
        c.raises(ValueError, lca.OfflineLCA, bad, [])
    else:
        bad['c1'] = 'c2'
        bad['c2'] = 'c1'
    c.raises(ValueError, lca.LCA, bad)


@C22.driver(4, 30)
def ancestors_many(c):
    """Trees of thousands of nodes, against lists of ancestors."""
    rng = c.rng
    n = rng.randint(600, 5000)
    p = tree_parents(rng, n)
    depth = [0] * n
    for i in range(1, n):
        depth[i] = depth[p[i]] + 1
    name = list(range(n))
    rng.shuffle(name)
    order = list(range(1, n))
    rng.shuffle(order)
    T = {name[i]: name[p[i]] for i in order}
    c.note('tree', n, p[:30])

    def join(x, y):
        while x != y:
            if depth[x] < depth[y]:
                y = p[y]
            else:
                x = p[x]
        return x
    L = [c.call(lca.LCA, T), c.call(lca.LCA, T, lca.LogarithmicRangeMin)]
    q = []
    for _ in range(250):
        x = rng.randrange(n)
        q.append((x, rng.choice([x, rng.randrange(n), p[x] or 0,
                                 min(n - 1, x + rng.randint(1, 9))])))
    O = c.call(lca.OfflineLCA, T, [(name[x], name[y]) for x, y in q])
    for x, y in q:
        c.event('lca_queries')
        w = name[join(x, y)]
        for S in L:
            c.eq(S(name[x], name[y]), w, 'wrong common ancestor in a large '
                 'tree', x=x, y=y, n=n)
        c.eq(O[name[x]][name[y]], w, 'wrong offline ancestor in a large '
             'tree', x=x, y=y)
    for _ in range(30):
        x = rng.randrange(n)
        xs = [rng.randint(max(0, x - 20), x)
              for _ in range(rng.randint(1, 300))]
        if rng.random() < .7:
            xs.insert(rng.choice([0, len(xs), rng.randrange(len(xs))]),
                      rng.randrange(n))
        w = xs[0]
        for y in xs:
            w = join(w, y)
        for S in L:
            c.eq(S(*[name[y] for y in xs]), name[w], 'wrong common ancestor '
                 'of many nodes', nodes=xs)
    # not a tree: a cycle beside it, met late
    bad = dict(T)
    k = rng.randint(2, 5)
    for i in range(k):
        bad['c', i] = 'c', (i + 1) % k
    c.raises(ValueError, lca.LCA, bad)
    bad = dict(T)
    bad['extra child'] = 'another root'
    c.raises(ValueError, lca.LCA, bad)
    c.raises(ValueError, lca.OfflineLCA, bad, [])
    c.nontrivial(n, p[:50])


@C22.driver(6, 24)
def ancestors_deep(c):
    rng = c.rng
    n = 4000
    k = c.i % 3
    if k == 0:
        T = {i: i - 1 for i in range(1, n)}
        want = min
    elif k == 1:
        T = {i: (i - 1 if i % 2 == 0 else max(0, i - 2)) for i in
             range(1, n)}
        want = None
    else:
        X = [rng.randint(0, 5) for _ in range(n)] if c.i > 2 else list(
            range(n))
        R = c.call(lca.RangeMin, X)
        for _ in range(300):
            i = rng.randrange(n)
            j = rng.randint(i + 1, n)
            c.eq(R[i:j], min(X[i:j]), 'wrong minimum of a long range')
            c.event('range_queries')
        c.nontrivial('long range', c.i)
        return
    L = c.call(lca.LCA, T)
    q = [(rng.randrange(n), rng.randrange(n)) for _ in range(300)]
    O = c.call(lca.OfflineLCA, T, q)
    for x, y in q:
        a = x
        up = {x}
        while a in T:
            a = T[a]
            up.add(a)
        w = y
        while w not in up:
            w = T[w]
        c.event('lca_queries')
        c.eq(L(x, y), w, 'wrong common ancestor in a deep tree', x=x, y=y)
        c.eq(O[x][y], w, 'wrong offline ancestor in a deep tree', x=x, y=y)
    c.nontrivial('deep', k)


# ---------------------------------------------------------------------------
C23 = Prop(
    'C23',
    rule='Halin graphs from random plane trees, graphs expanded from K4 by '
         'inverse reductions, near misses by flipping edges, and small dense '
         'graphs; answers compared with brute force over leaf sets and over '
         'all reduction sequences; non-trivial: minimum degree three and at '
         'least 5 vertices',
    anchors=['pads/halin.py'],
    need={'calls': 1000, 'halin': 80, 'not_halin': 200, 'reducible': 100,
          'not_reducible': 200, 'wheels': 20, 'dual_trees': 20,
          'rejections': 20})


def random_halin(rng, internal, extra, deep=False, hub=False, least=3):
    """Halin graph: (n, edges, leaf set)."""
    # grow a plane tree whose internal nodes have degree at least three
    kids = {0: []}
    n = 1

    def child(p):
        nonlocal n
        kids[p].append(n)
        kids[n] = []
        n += 1
    for _ in range(least):
        child(0)
    leaves = list(kids[0])
    inner = [0]
    for _ in range(internal - 1):
        at = len(leaves) - 1 if deep else rng.randrange(len(leaves))
        leaf = leaves.pop(at)
        inner.append(leaf)
        for _ in range(least - 1):
            leaves.append(n)
            child(leaf)
    for t in range(extra):
        p = inner[-1 - t] if t < len(inner) and hub else rng.choice(inner)
        child(p)
        if len(kids[p]) < 50:
            rng.shuffle(kids[p])
    E = [(p, q) for p in kids for q in kids[p]]
    order = []

    todo = [0]
    while todo:
        v = todo.pop()
        if not kids[v]:
            order.append(v)
        todo += kids[v]
    k = len(order)
    for i in range(k):
        a, b = order[i], order[(i + 1) % k]
        E.append((min(a, b), max(a, b)))
    return n, sorted(set((min(e), max(e)) for e in E)), set(order)


def expand_d3(rng, steps, triangles=True, paths=True):
    """Grow a graph from K4 by inverse reductions."""
    n, E = gens.complete(4)
    E = set(E)
    for _ in range(steps):
        A = gens.adjacency(n, E)
        opts = []
        if triangles:
            opts += [('t', v) for v in range(n) if len(A[v]) == 3]
        if paths:
            opts += [('p', u, w, x) for u, w in E
                     if len(A[u]) == 3 and len(A[w]) == 3
                     for x in A[u] & A[w]]
        if not opts:
            break
        if triangles and paths and rng.random() < .5:
            opts = [o for o in opts if o[0] == rng.choice('tp')] or opts
        o = rng.choice(opts)
        if o[0] == 't':
            v = o[1]
            a, b, d = sorted(A[v])
            E = {e for e in E if v not in e} | {
                (min(v, a), max(v, a)), (b, n), (d, n + 1), (v, n),
                (v, n + 1), (n, n + 1)}
            n += 2
        else:
            _, u, w, x = o
            E.discard((min(u, w), max(u, w)))
            E |= {(u, n), (w, n), (x, n)}
            n += 1
    return n, sorted(E)


def expand_far(rng, steps, triangles=True, paths=True):
    """Like expand_d3, but to thousands of vertices."""
    A = {v: set(range(4)) - {v} for v in range(4)}
    deep = rng.random() < .3
    for _ in range(steps):
        n = len(A)
        v = n - 1 - rng.randrange(min(n, 3)) if deep else rng.randrange(n)
        if len(A[v]) != 3:
            continue
        if triangles and (not paths or rng.random() < .5):
            a, b, d = rng.sample(sorted(A[v]), 3)
            for x, y in ((b, n), (d, n + 1)):
                A[v].discard(x)
                A[x].discard(v)
                A[x].add(y)
            A[n] = {b, v, n + 1}
            A[n + 1] = {d, v, n}
            A[v] |= {n, n + 1}
        elif paths:
            opts = [(w, x) for w in A[v] if len(A[w]) == 3
                    for x in A[v] & A[w]]
            if not opts:
                continue
            w, x = rng.choice(sorted(opts))
            A[v].discard(w)
            A[w].discard(v)
            A[n] = {v, w, x}
            for y in (v, w, x):
                A[y].add(n)
    return len(A), sorted((u, v) for u in A for v in A[u] if u < v)


def far_member(rng, k):
    """(class, n, edges, leaves) of a large member of a class, or nearly."""
    if k == 0:
        return ('halin',) + random_halin(
            rng, rng.randint(30, 600), rng.randint(0, 300),
            rng.random() < .4, rng.random() < .5)
    if k == 1:
        return ('reducible',) + expand_far(
            rng, rng.randint(200, 900)) + (None,)
    if k == 2:
        return ('dual',) + expand_far(
            rng, rng.randint(100, 600), paths=False) + (None,)
    if k == 3:
        return ('wheel',) + gens.wheel(rng.randint(300, 1500)) + (None,)
    # all inner nodes have degree four, so the leaves are known
    n, E, L = random_halin(rng, rng.randint(10, 200), rng.randint(0, 99),
                           rng.random() < .4, least=4)
    if rng.random() < .8:                   # two leaves trade places
        a, b = rng.sample(sorted(L), 2)
        t = {a: b, b: a}
        T = {tuple(sorted(e)) for e in E if not set(e) <= L}
        C = {tuple(sorted((t.get(u, u), t.get(v, v)))) for u, v in E
             if {u, v} <= L}
        E = sorted(T | C)
    return 'forced', n, E, L


@C23.driver(15, 90, fixed=True)
def recognise_far(c):
    """Members of each class with hundreds or thousands of vertices."""
    rng = c.rng
    kind, n, E, L = far_member(rng, c.i % 5)
    cut = c.i % 15 >= 10
    if cut and kind != 'forced':            # leaves a vertex of degree two
        A = gens.adjacency(n, E)
        E = list(E)
        E.remove(rng.choice([(u, v) for u, v in E
                             if 3 in (len(A[u]), len(A[v]))]))
        kind = 'none'
    g = gens.build(rng, *gens.relabel(rng, (n, E)))
    G = g.graph
    c.note(kind, n, len(E))
    want = {'halin': (kind, 'reducible'), 'reducible': (kind,),
            'dual': (kind, 'reducible'), 'none': (),
            'wheel': (kind, 'halin', 'reducible')}.get(kind)
    if kind == 'forced':
        h = oracles.halin_outer(n, E, L)
        c.event('halin' if h else 'not_halin')
        c.eq(bool(c.call(halin.is_halin, G)), h, 'wrong verdict on a large '
             'Halin graph', n=n)
        want = ('reducible',) if h else ()
    for name, f in (('halin', halin.is_halin), ('wheel', halin.is_wheel),
                    ('reducible', halin.is_D3_reducible),
                    ('dual', halin.is_dual_3_tree)):
        if name in want or kind == 'none':
            c.eq(bool(c.call(f, G)), name in want, 'wrong verdict of ' +
                 f.__name__ + ' on a large graph', kind=kind, n=n)
            if name in ('halin', 'reducible'):
                c.event(('' if name in want else 'not_') + name)
    if kind == 'wheel':
        c.eq(bool(c.call(halin.is_dual_3_tree, G)), False,
             'large wheel taken for the dual of a 3-tree', n=n)
    c.nontrivial(g.key())


def run_c23(c, idx):
    g = gens.build(c.rng, *idx)
    G, n, E = g.graph, g.n, g.edges
    c.note('graph', G)
    red = oracles.d3_reducible(n, E)
    if red is not None:
        c.event('reducible' if red else 'not_reducible')
        c.eq(bool(c.call(halin.is_D3_reducible, G)), red,
             'wrong D3-reducibility', G=G)
    dual = oracles.d3_reducible(n, E, paths=False)
    if dual is not None:
        if dual:
            c.event('dual_trees')
        c.eq(bool(c.call(halin.is_dual_3_tree, G)), dual,
             'wrong verdict on the dual of a 3-tree', G=G)
    wheel = oracles.is_wheel(n, E)
    if wheel:
        c.event('wheels')
    c.eq(bool(c.call(halin.is_wheel, G)), wheel, 'wrong verdict on a wheel',
         G=G)
    if n <= 11:
        h = bool(oracles.halin_leaf_sets(n, E))
        c.event('halin' if h else 'not_halin')
        c.eq(bool(c.call(halin.is_halin, G)), h, 'wrong verdict on a Halin '
             'graph', G=G)
    c.eq(bool(c.call(halin.is_K4, G)), n == 4 and len(E) == 6,
         'wrong verdict on K4', G=G)
    if n >= 5 and min(map(len, g.adj())) >= 3:
        c.nontrivial(g.key())


@C23.driver(450, 6000)
def recognise(c):
    rng = c.rng
    k = rng.randrange(10)
    if k < 2:
        idx = random_halin(rng, rng.randint(1, 3), rng.randint(0, 2))[:2]
    elif k < 4:
        n, E, _ = random_halin(rng, rng.randint(1, 3), rng.randint(0, 2))
        idx = gens.perturb(rng, (n, E), rng.choice([1, 1, 2]))
    elif k == 4:
        idx = expand_d3(rng, rng.randint(0, 4))
    elif k == 5:
        idx = gens.perturb(rng, expand_d3(rng, rng.randint(0, 4)), 1)
    elif k == 6:
        idx = expand_d3(rng, rng.randint(0, 4), paths=False)
    elif k == 7:
        idx = gens.wheel(rng.randint(3, 8))
        if rng.random() < .3:
            idx = gens.perturb(rng, idx, 1)
    elif k == 8:
        idx = gens.gnp(rng, rng.randint(4, 7), rng.choice([.5, .6, .8]))
    else:
        idx = rng.choice([gens.complete(4), gens.complete(5), gens.prism(3),
                          gens.complete_bipartite(3, 3), gens.hypercube(3),
                          gens.prism(5), gens.petersen(), gens.cycle(5),
                          gens.union(gens.complete(4), gens.complete(4)),
                          gens.union(gens.complete(4), (1, [])),
                          (0, []), (1, []), gens.prism(4), gens.moebius(4)])
    idx = gens.relabel(rng, idx)
    c.sample(idx)
    run_c23(c, idx)


@C23.driver(60, 600)
def recognise_large(c):
    """Large members of each class, where brute force cannot go."""
    rng = c.rng
    k = c.i % 4
    if k == 0:
        n, E, L = random_halin(rng, rng.randint(4, 25), rng.randint(0, 15))
        g = gens.build(rng, n, E)
        c.event('halin')
        c.check(c.call(halin.is_halin, g.graph), 'Halin graph not '
                'recognised', G=g)
        c.check(c.call(halin.is_D3_reducible, g.graph), 'Halin graph is not '
                'reducible', G=g)
    elif k == 1:
        n, E = gens.relabel(rng, expand_d3(rng, rng.randint(8, 40)))
        g = gens.build(rng, n, E)
        c.check(c.call(halin.is_D3_reducible, g.graph), 'reducible graph '
                'not recognised', G=g)
    elif k == 2:
        n, E = gens.relabel(rng, expand_d3(rng, rng.randint(5, 25),
                                           paths=False))
        g = gens.build(rng, n, E)
        c.check(c.call(halin.is_dual_3_tree, g.graph), 'dual of a 3-tree '
                'not recognised', G=g)
        c.check(not c.call(halin.is_wheel, g.graph), 'not a wheel', G=g)
    else:
        n, E = gens.relabel(rng, gens.wheel(rng.randint(10, 60)))
        g = gens.build(rng, n, E)
        c.check(c.call(halin.is_wheel, g.graph), 'wheel not recognised', G=g)
        c.check(c.call(halin.is_halin, g.graph), 'wheel is Halin', G=g)
        c.check(not c.call(halin.is_dual_3_tree, g.graph), 'large wheel is '
                'no dual of a 3-tree', G=g)
    c.nontrivial(g.key())


def middling(rng):
    """Graphs of 8 to 40 vertices in or near the classes."""
    k = rng.randrange(8)
    if k == 0:
        idx = random_halin(rng, rng.randint(3, 12), rng.randint(0, 6))[:2]
    elif k == 1:
        n, E, _ = random_halin(rng, rng.randint(3, 12), rng.randint(0, 6))
        idx = gens.perturb(rng, (n, E), rng.choice([1, 2]))
    elif k == 2:                # leaves in another order around the cycle
        n, E, L = random_halin(rng, rng.randint(3, 9), rng.randint(0, 4))
        E = [e for e in E if not set(e) <= L]
        L = sorted(L)
        rng.shuffle(L)
        idx = n, sorted(set(E) | {(min(a, b), max(a, b))
                                  for a, b in zip(L, L[1:] + L[:1])})
    elif k == 3:
        idx = expand_d3(rng, rng.randint(4, 14), paths=False)
    elif k == 4:
        idx = expand_d3(rng, rng.randint(4, 16))
    elif k == 5:
        idx = gens.perturb(rng, expand_d3(rng, rng.randint(4, 14)), 1)
    elif k == 6:                # vertices of other graphs as triangles
        n, E = rng.choice([gens.prism(rng.randint(3, 6)), gens.petersen(),
                           gens.complete_bipartite(3, 3), gens.hypercube(3),
                           gens.moebius(rng.randint(3, 6))])
        idx = truncate(rng, (n, E), rng.randint(1, 4))
    else:
        n = rng.randint(7, 25)
        idx = gens.wheel(n)
        if rng.random() < .7:
            idx = gens.perturb(rng, idx, 1)
    return gens.relabel(rng, idx)


@C23.driver(120, 1500)
def recognise_middling(c):
    rng = c.rng
    n, E = middling(rng)
    g = gens.build(rng, n, E)
    G = g.graph
    c.note('graph', G)
    c.sample(n)
    for f, kw in ((halin.is_D3_reducible, {}),
                  (halin.is_dual_3_tree, {'paths': False})):
        got = bool(c.call(f, G))
        want = oracles.d3_greedy(rng, n, E, **kw)
        if got and not want:        # look harder before blaming the answer
            want = oracles.d3_greedy(rng, n, E, tries=200, **kw)
        c.eq(got, want, 'wrong verdict of ' + f.__name__, G=G)
        if not kw:
            c.event('reducible' if want else 'not_reducible')
    c.eq(bool(c.call(halin.is_wheel, G)), oracles.is_wheel(n, E),
         'wrong verdict on a wheel', G=G)
    h = oracles.halin_cycle(n, E)
    if h is not None:
        c.event('halin' if h else 'not_halin')
        c.eq(bool(c.call(halin.is_halin, G)), bool(h),
             'wrong verdict on a Halin graph', G=G)
    if min(map(len, g.adj())) >= 3:
        c.nontrivial(g.key())


@C23.driver(60, 600)
def recognise_directed(c):
    rng = c.rng
    n, E = rng.choice([gens.complete(4), gens.wheel(5), gens.prism(3)])
    D = set(E) | {(v, u) for u, v in E}
    D.discard(rng.choice(sorted(D)))
    g = gens.build(rng, n, sorted(D), directed=True)
    f = rng.choice([halin.is_D3_reducible, halin.is_halin, halin.is_wheel,
                    halin.is_dual_3_tree, halin.hamiltonian_cycle_D3])
    c.raises(TypeError, f, g.graph)


# ---------------------------------------------------------------------------
C24 = Prop(
    'C24',
    rule='Halin and D3-reducible graphs from random expansions; leaf sets '
         'checked against the definition of a Halin graph, cycles edge by '
         'edge; other graphs must be refused; non-trivial: at least 6 '
         'vertices',
    anchors=['pads/halin.py'],
    need={'calls': 500, 'leaf_sets': 150, 'hamiltonian': 200,
          'rejections': 50})


@C24.driver(15, 90, fixed=True)
def construct_far(c):
    """Leaves and cycles of graphs with hundreds or thousands of vertices."""
    rng = c.rng
    kind, n, E, L = far_member(rng, c.i % 5)
    g = gens.build(rng, n, E)
    G = g.graph
    c.note(kind, n, len(E))
    h = kind in ('halin', 'wheel')
    if kind == 'forced':
        h = oracles.halin_outer(n, E, L)
        if not h:
            c.raises(TypeError, halin.halin_leaf_vertices, G)
    if h:
        c.event('leaf_sets')
        X = list(c.call(halin.halin_leaf_vertices, G))
        c.eq(len(set(X)), len(X), 'leaf repeated')
        c.check(set(X) <= set(G), 'foreign leaf')
        c.check(oracles.halin_outer(n, E, {g.index[v] for v in X}),
                'the leaf set does not make this large graph a Halin graph',
                n=n, leaves=len(X))
    if h or kind != 'forced':
        c.event('hamiltonian')
        cycle_edges(c, c.call(halin.hamiltonian_cycle_D3, G), G)
    if kind != 'forced':
        A = g.adj()
        u, v = rng.choice([(u, v) for u, v in g.edges
                           if 3 in (len(A[u]), len(A[v]))])
        E2 = [e for e in g.edges if e != (u, v)]
        H = gens.build(rng, n, E2).graph
        c.raises(TypeError, halin.halin_leaf_vertices, H)
        c.raises(TypeError, halin.hamiltonian_cycle_D3, H)
    c.nontrivial(g.key())


@C24.driver(500, 6000)
def construct(c):
    rng = c.rng
    k = rng.randrange(9)
    if k < 3:
        n, E, L = random_halin(rng, rng.choice([1, 2, 3, 5, 9]),
                               rng.choice([0, 1, 3, 7]))
        idx = n, E
    elif k < 5:
        idx = expand_d3(rng, rng.choice([0, 1, 2, 3, 4, 10, 25]))
    elif k == 5:
        idx = gens.perturb(rng, expand_d3(rng, rng.randint(0, 3)), 1)
    elif k == 6:
        n, E, L = random_halin(rng, rng.randint(1, 3), rng.randint(0, 2))
        idx = gens.perturb(rng, (n, E), 1)
    elif k == 7:
        idx = gens.gnp(rng, rng.randint(4, 7), .6)
    else:
        idx = middling(rng)
    idx = gens.relabel(rng, idx)
    g = gens.build(rng, *idx)
    G, n, E = g.graph, g.n, g.edges
    c.note('graph', G)
    c.sample(g)
    if n <= 11:
        red = oracles.d3_reducible(n, E)
        h = bool(oracles.halin_leaf_sets(n, E))
    else:
        red = k < 5 or oracles.d3_greedy(rng, n, E)
        if not red:
            red = oracles.d3_greedy(rng, n, E, tries=20)
        h = True if k < 3 else oracles.halin_cycle(n, E)
        if h is not None:
            h = bool(h)
    if h is False:
        c.raises(TypeError, halin.halin_leaf_vertices, G)
    elif h:
        c.event('leaf_sets')
        L = list(c.call(halin.halin_leaf_vertices, G))
        c.eq(len(set(L)), len(L), 'leaf repeated', L=L)
        c.check(set(L) <= set(G), 'foreign leaf', L=L)
        c.check(oracles.halin_outer(n, E, {g.index[v] for v in L}),
                'the leaf set does not make this a Halin graph', G=G, L=L)
    if red is False:
        c.raises(TypeError, halin.hamiltonian_cycle_D3, G)
    elif red:
        c.event('hamiltonian')
        cycle_edges(c, c.call(halin.hamiltonian_cycle_D3, G), G)
    if n >= 6:
        c.nontrivial(g.key())


# ---------------------------------------------------------------------------
C25 = Prop(
    'C25',
    rule='media given by isometric families of bit vectors (down-sets, '
         'middle layers, products, random isometric sets), in all three '
         'representations; actions, reversals, routes and embeddings checked '
         'against Hamming distance; arbitrary labelled graphs; '
         'non-trivial: at least 4 states',
    anchors=['pads/medium.py'],
    need={'calls': 300, 'routes': 2000, 'rejections': 20})


def isometric(S, L):
    """Is the set of bit vectors an isometric subset of the cube?"""
    S = set(S)
    for s in S:
        d = {s: 0}
        lev = [s]
        while lev:
            nxt = []
            for x in lev:
                for i in range(L):
                    y = x ^ 1 << i
                    if y in S and y not in d:
                        d[y] = d[x] + 1
                        nxt.append(y)
            lev = nxt
        if len(d) != len(S) or any(
                d[x] != bin(x ^ s).count('1') for x in d):
            return False
    return True


def random_isometric(rng, maxlen=6, maxsize=40):
    L = rng.randint(1, maxlen)
    k = rng.randrange(5)
    S = {0}
    if k == 0:                              # down-set
        for _ in range(rng.randint(1, 4)):
            top = rng.getrandbits(L)
            sub = top
            while len(S) < maxsize:
                S.add(sub)
                if not sub:
                    break
                sub = (sub - 1) & top
        S = {x for x in range(1 << L) if any(
            x & y == x for y in S)} if L <= 4 else S
    elif k == 1:                            # two consecutive layers
        a = rng.randint(0, L - 1)
        S = {x for x in range(1 << L) if a <= bin(x).count('1') <= a + 1}
    elif k == 2:                            # path
        S = {(1 << i) - 1 for i in range(L + 1)}
    elif k == 3:                            # even cycle
        S = set()
        for i in range(L):
            x = (1 << i) - 1
            S |= {x, (1 << L) - 1 - x}
    else:                                   # grow while isometric
        for _ in range(rng.randint(1, 25)):
            x = rng.choice(sorted(S)) ^ 1 << rng.randrange(L)
            if isometric(S | {x}, L):
                S.add(x)
    if not isometric(S, L):
        S = {0, 1}
    flip = rng.getrandbits(L)
    return {x ^ flip for x in S}, L


def ham(x, y):
    return bin(x ^ y).count('1')


class UserMedium(med.Medium):
    """A client's own medium: states are strings, tokens are strings."""

    def __init__(self, S, L):
        self.S = {format(x, 'b').zfill(L): x for x in S}
        self.back = {x: s for s, x in self.S.items()}
        self.L = L

    def states(self):
        return iter(self.S)

    def tokens(self):
        for i in range(self.L):
            yield '+%d' % i
            yield '-%d' % i

    def reverse(self, t):
        return ('-' if t[0] == '+' else '+') + t[1:]

    def action(self, s, t):
        x = self.S[s]
        bit = 1 << int(t[1:])
        y = x | bit if t[0] == '+' else x & ~bit
        return self.back.get(y, s)


def wide_isometric(rng):
    """Families that need many coordinates: trees and even cycles."""
    if rng.random() < .3:
        L = rng.randint(7, 40)
        S = set()
        for i in range(L):
            x = (1 << i) - 1
            S |= {x, (1 << L) - 1 - x}
    else:
        L = rng.randint(7, 70)
        back = rng.choice([1, 3, L])
        S = [0]
        for i in range(L):
            S.append(S[rng.randrange(max(0, i + 1 - back), i + 1)] | 1 << i)
    flip = rng.getrandbits(L)
    return {x ^ flip for x in S}, L


@C25.driver(250, 3500)
def media(c):
    check_media(c, *random_isometric(c.rng))


@C25.driver(2, 20)
def media_wide(c):
    check_media(c, *wide_isometric(c.rng))


def large_isometric(rng, k):
    """Families of a hundred or more states."""
    if k == 0:
        L = rng.choice([6, 7, 7, 8]) if rng.random() < .4 else 7
        return set(range(1 << L)), L
    if k == 1:                              # grid
        a, b = rng.randint(5, 14), rng.randint(8, 12)
        return {(1 << i) - 1 | ((1 << j) - 1) << a
                for i in range(a + 1) for j in range(b + 1)}, a + b
    if k == 2:                              # two layers
        L = rng.randint(7, 8)
        r = rng.randint(2, 4)
        return {x for x in range(1 << L)
                if r <= bin(x).count('1') <= r + 1}, L
    L = rng.randint(100, 160)               # tree
    back = rng.choice([1, 4, L])
    S = [0]
    for i in range(L):
        S.append(S[rng.randrange(max(0, i + 1 - back), i + 1)] | 1 << i)
    return set(S), L


@C25.driver(4, 24, fixed=True)
def media_large(c):
    """Routing and embedding with a hundred or more states."""
    rng = c.rng
    S, L = large_isometric(rng, c.i % 4)
    flip = rng.getrandbits(L)
    S = {x ^ flip for x in S}
    c.note('states', len(S), L)
    M = c.call(med.BitvectorMedium, S, L)
    G = c.call(med.StateTransitionGraph, M)
    for s in S:
        c.eq(G[s], {s ^ 1 << i: (i, not s >> i & 1) for i in range(L)
                    if s ^ 1 << i in S}, 'wrong transitions', s=s)
    if rng.random() < .5:
        M = c.call(med.LabeledGraphMedium, G)
    R = c.call(med.RoutingTable, M)
    H = c.call(med.HypercubeEmbedding, M)
    c.eq(len(R), len(S) * (len(S) - 1), 'wrong number of routes')
    for s in S:
        for d in S:
            k = ham(s, d)
            if k:
                c.event('routes')
                if ham(M(s, R[s, d]), d) != k - 1:
                    c.fail('route does not lead closer', s=s, d=d)
            if ham(H[s], H[d]) != k:
                c.fail('embedding is not isometric', s=s, d=d)
    c.nontrivial(sorted(S), L)


def check_media(c, S, L):
    rng = c.rng
    c.note('states', sorted(S), L)
    c.sample((sorted(S), L))
    base = c.call(med.BitvectorMedium, rng.choice([list, set, tuple])(S), L)
    c.eq(sorted(base), sorted(S), 'wrong states')
    c.eq(len(base), len(S), 'wrong number of states')
    toks = set(base.tokens())
    c.eq(toks, {(i, b) for i in range(L) for b in (False, True)},
         'wrong tokens')
    for x in S:
        D = c.call(base.__getitem__, x)
        for i in range(L):
            for b in (False, True):
                y = x | 1 << i if b else x & ~(1 << i)
                want = y if y in S else x
                c.eq(base(x, (i, b)), want, 'wrong action', x=x, i=i, b=b)
                c.eq(base.action(x, (i, b)), want, 'wrong action')
                c.eq(D[i, b], want, 'wrong table of actions')
                c.eq(base.reverse((i, b)), (i, not b), 'wrong reverse')
    mine = UserMedium(S, L)
    for M0, dec in ((base, lambda s: s), (mine, mine.S.get)):
        G = c.call(med.StateTransitionGraph, M0)
        c.eq(set(G), set(M0), 'transition graph has other states')
        for s in G:
            c.eq({dec(t) for t in G[s]}, {y for y in S if ham(dec(s), y) ==
                                          1},
                 'wrong transitions', s=s)
            for t in G[s]:
                c.eq(M0(s, G[s][t]), t, 'token does not lead to the '
                     'neighbour', s=s, t=t)
        E = c.call(med.ExplicitMedium, M0)
        used = {G[s][t] for s in G for t in G[s]}
        X = c.call(med.LabeledGraphMedium, G)
        for M, tk in ((M0, set(M0.tokens())), (E, set(M0.tokens())),
                      (X, used)):
            c.eq(set(M), set(M0), 'medium has other states',
                 kind=type(M).__name__)
            c.eq(len(M), len(S), 'wrong number of states')
            c.eq(len(list(M.states())), len(S), 'wrong listing of states')
            c.eq(set(M.tokens()), tk, 'medium has other tokens',
                 kind=type(M).__name__)
            for t in tk:
                c.eq(M.reverse(t), M0.reverse(t), 'wrong reverse', t=t,
                     kind=type(M).__name__)
            for s in M:
                row = M[s]
                for t in tk:
                    c.eq(M(s, t), M0.action(s, t), 'wrong action', s=s, t=t,
                         kind=type(M).__name__)
                    c.eq(row[t], M0.action(s, t), 'wrong action table')
            R = c.call(med.RoutingTable, M)
            for s in M:
                for d in M:
                    if s == d:
                        continue
                    c.event('routes')
                    c.check((s, d) in R, 'route missing', s=s, d=d,
                            kind=type(M).__name__)
                    n = M(s, R[s, d])
                    c.eq(ham(dec(n), dec(d)), ham(dec(s), dec(d)) - 1,
                         'route does not lead closer', s=s, d=d, n=n,
                         kind=type(M).__name__)
            H = c.call(med.HypercubeEmbedding, M)
            c.eq(set(H), set(M), 'embedding has other states')
            for s in M:
                for d in M:
                    c.eq(ham(H[s], H[d]), ham(dec(s), dec(d)),
                         'embedding is not isometric', s=s, d=d)
    if len(S) >= 4:
        c.nontrivial(sorted(S), L)


def signed_coordinates(n, lab):
    """Embedding of a connected labelled graph given by its tokens, or None.

    A system is a medium when each token pair is one coordinate, tokens
    always set or always clear it, and distance is the number of differing
    coordinates.
    """
    emb = {0: frozenset()}
    todo = [0]
    for v in todo:
        for w, (k, sgn) in lab[v].items():
            x = emb[v] ^ {k}
            if w not in emb:
                emb[w] = x
                todo.append(w)
            elif emb[w] != x:
                return None
    side = {}
    for v in range(n):
        for t in lab[v].values():
            if side.setdefault(t, t[0] in emb[v]) != (t[0] in emb[v]):
                return None
    D = oracles.distances(n, [(v, w) for v in range(n) for w in lab[v]
                              if v < w])
    if any(D[v][w] != len(emb[v] ^ emb[w]) for v in range(n)
           for w in range(n)):
        return None
    return D


@C25.driver(250, 3500)
def labelled(c):
    """Arbitrary labellings, few of which are media."""
    rng = c.rng
    n = rng.randint(2, 7)
    k = rng.randint(1, 6)
    lab = [{} for _ in range(n)]
    E = {(rng.randrange(i), i) for i in range(1, n)}
    for _ in range(rng.randrange(3)):
        E.add(tuple(sorted(rng.sample(range(n), 2))))
    for v, w in sorted(E):
        free = [(t, s) for t in range(k) for s in (1, -1)
                if (t, s) not in lab[v].values() and
                (t, -s) not in lab[w].values()]
        if free and rng.random() < .95:
            t, s = rng.choice(free)
        else:
            t, s = rng.randrange(k), rng.choice((1, -1))
        lab[v][w] = t, s
        lab[w][v] = t, -s
    tok = {(t, s): '%s%d' % ('-+'[s > 0], t) for t in range(k)
           for s in (1, -1)}
    order = list(range(n))
    rng.shuffle(order)
    G = {}
    for v in order:
        row = list(lab[v].items())
        rng.shuffle(row)
        G[v] = {w: tok[t] for w, t in row}
    c.note('labels', G)
    if any(len(set(r.values())) < len(r) for r in lab):
        c.event('rejections')
        c.raises(med.MediumError, med.LabeledGraphMedium, G)
        return
    M = c.call(med.LabeledGraphMedium, G)
    used = {t for r in lab for t in r.values()}
    c.eq(set(M.tokens()), {tok[t] for t in used}, 'wrong tokens', G=G)
    for t, s in used:
        c.eq(M.reverse(tok[t, s]), tok[t, -s], 'wrong reverse', G=G)
        for v in range(n):
            want = [w for w in lab[v] if lab[v][w] == (t, s)] or [v]
            c.eq(M(v, tok[t, s]), want[0], 'wrong action', G=G, v=v,
                 t=tok[t, s])
    D = signed_coordinates(n, lab)
    if D is None:
        c.event('not_media')
        return
    c.event('labelled_media')
    R = c.call(med.RoutingTable, M)
    H = c.call(med.HypercubeEmbedding, M)
    for v in range(n):
        for w in range(n):
            c.eq(ham(H[v], H[w]), D[v][w], 'embedding is not isometric',
                 G=G, v=v, w=w)
            if v != w:
                c.event('routes')
                c.eq(D[M(v, R[v, w])][w], D[v][w] - 1,
                     'route does not lead closer', G=G, v=v, w=w)
    if n > 3:
        c.nontrivial(G)


def spider(rng):
    """Tree with vertices of very many neighbours: parents of 1, 2, ..."""
    p = [0] * rng.randint(70, 110)
    legs = len(p)
    if rng.random() < .5:
        for i in range(rng.randint(66, legs)):
            p.append(i + 1)
    else:
        p += [rng.randint(1, legs)] * rng.randint(66, legs)
    for _ in range(rng.randint(0, 10)):
        p.append(rng.randint(1, len(p)))
    return p


@C25.driver(6, 24, fixed=True)
def spiders(c):
    """Labelled trees around one vertex: every edge has its own tokens."""
    rng = c.rng
    p = spider(rng)
    n = len(p) + 1
    order = rng.sample(range(n), n)
    if rng.random() < .5:               # the middle comes first
        order.remove(0)
        order.insert(0, 0)
    G = {v: {} for v in order}
    for i in rng.sample(range(1, n), n - 1):
        G[i][p[i - 1]] = 'up', i
        G[p[i - 1]][i] = 'down', i
    c.note('spider', n)
    M = c.call(med.LabeledGraphMedium, G)
    c.eq(set(M.tokens()), {(t, i) for t in ('up', 'down')
                           for i in range(1, n)}, 'wrong tokens')
    above = [{0}]
    for i in range(1, n):
        c.eq(M(i, ('up', i)), p[i - 1], 'wrong action')
        c.eq(M(p[i - 1], ('down', i)), i, 'wrong action')
        c.eq(M(0, ('up', i)), 0, 'wrong action')
        c.eq(M.reverse(('up', i)), ('down', i), 'wrong reverse')
        above.append(above[p[i - 1]] | {i})
    R = c.call(med.RoutingTable, M)
    H = c.call(med.HypercubeEmbedding, M)
    for v in range(n):
        for w in range(n):
            d = len(above[v] ^ above[w])
            if ham(H[v], H[w]) != d:
                c.fail('embedding is not isometric', v=v, w=w)
            if d:
                c.event('routes')
                x = M(v, R[v, w])
                if len(above[x] ^ above[w]) != d - 1:
                    c.fail('route does not lead closer', v=v, w=w)
    # one token with two effects on the middle, or with two reverses
    row = list(G[0])
    a, b = row[-1], rng.choice(row[:-1])
    old = G[0][a]
    G[0][a] = G[0][b]
    c.raises(med.MediumError, med.LabeledGraphMedium, G)
    G[0][a] = 'up', b
    c.raises(med.MediumError, med.LabeledGraphMedium, G)
    G[0][a] = old
    c.nontrivial(p)


@C25.driver(60, 600)
def media_rejected(c):
    rng = c.rng
    S, L = random_isometric(rng)
    G = c.call(med.StateTransitionGraph, med.BitvectorMedium(S, L))
    if len(S) < 3:
        return
    k = rng.randrange(5)
    edges = [(v, w) for v in G for w in G[v]]
    v, w = rng.choice(edges)
    if k == 0:
        del G[v][w]
        c.raises(med.MediumError, med.LabeledGraphMedium, G)
    elif k == 1:
        G[v][w] = 'unmatched'
        t = G[w][v]
        if sum(G[x][y] == t for x, y in edges if y in G[x]) > 1:
            c.raises(med.MediumError, med.LabeledGraphMedium, G)
    elif k == 2:
        x = [u for u in G if len(G[u]) > 1]
        if x:
            u = rng.choice(x)
            a, b = list(G[u])[:2]
            G[u][a] = G[u][b]
            c.raises(med.MediumError, med.LabeledGraphMedium, G)
    elif k == 3:                # a token with two reverses
        other = sorted({G[x][y] for x, y in edges} - set(G[v].values()) -
                       {G[w][v]})
        if other:
            G[v][w] = rng.choice(other)
            c.raises(med.MediumError, med.LabeledGraphMedium, G)
    else:                       # two tokens with the same effect

        class Doubled(UserMedium):
            def tokens(self):
                yield from UserMedium.tokens(self)
                yield '+%d ' % 0
                yield '-%d ' % 0

            def action(self, s, t):
                return UserMedium.action(self, s, t.strip())
        if any(x ^ 1 in S for x in S):
            c.raises(med.MediumError, med.StateTransitionGraph,
                     Doubled(S, L))


# ---------------------------------------------------------------------------
C26 = Prop(
    'C26',
    rule='partial cubes (cubes, trees, grids, even cycles, isometric sets) '
         'and near misses (bipartite graphs with flipped edges, K2,3, odd '
         'cycles, disconnected) compared with the Djokovic-Winkler '
         'criterion, labels with graph distance; non-trivial: at least one '
         'cycle',
    anchors=['pads/partial_cube.py', 'pads/medium.py'],
    need={'calls': 300, 'partial_cube': 100, 'not_partial_cube': 100})


def bip_graph(rng):
    k = rng.randrange(12)
    if k == 0:
        return gens.hypercube(rng.randint(1, 4))
    if k == 1:
        return gens.grid(rng.randint(1, 4), rng.randint(1, 5))
    if k == 2:
        return gens.cycle(rng.randint(3, 12))
    if k == 3:
        return gens.random_tree(rng, rng.randint(1, 14))
    if k == 4:
        return gens.complete_bipartite(rng.randint(1, 3), rng.randint(1, 3))
    if k < 8:
        S, L = random_isometric(rng)
        V = sorted(S)
        ix = {x: i for i, x in enumerate(V)}
        return len(V), [(ix[x], ix[x | 1 << i]) for x in V for i in range(L)
                        if not x >> i & 1 and x | 1 << i in S]
    if k == 8:                          # induced subgraph of a cube
        L = rng.randint(2, 4)
        V = [x for x in range(1 << L) if rng.random() < .7] or [0]
        ix = {x: i for i, x in enumerate(V)}
        return len(V), [(ix[x], ix[x | 1 << i]) for x in V for i in range(L)
                        if not x >> i & 1 and x | 1 << i in ix]
    if k == 9:                          # glue partial cubes at a vertex
        return gens.glue(rng, gens.cycle(2 * rng.randint(2, 4)),
                         gens.grid(2, 3), 1)
    if k == 10:
        return gens.prism(rng.randint(3, 6))
    # generalised Petersen graphs and Moebius ladders
    return rng.choice([gens.petersen(rng.randint(4, 10),
                                     rng.randint(1, 3)),
                       gens.moebius(rng.randint(2, 6))])


def run_c26(c, idx):
    g = gens.build(c.rng, *idx)
    G, n, E = g.graph, g.n, g.edges
    c.note('graph', G)
    yes = oracles.partial_cube(n, E)
    c.event('partial_cube' if yes else 'not_partial_cube')
    c.eq(bool(c.call(pc.isPartialCube, G)), yes, 'wrong verdict on a partial '
         'cube', G=G)
    if not yes:
        c.raises(med.MediumError, pc.MediumForPartialCube, G)
        c.raises(med.MediumError, pc.PartialCubeLabeling, G)
        return
    D = oracles.distances(n, E)
    lab = c.call(pc.PartialCubeLabeling, G)
    c.eq(set(lab), set(G), 'labels for other vertices', G=G)
    for i in range(n):
        for j in range(n):
            c.eq(ham(lab[g.names[i]], lab[g.names[j]]), D[i][j],
                 'Hamming distance differs from graph distance', G=G,
                 v=g.names[i], w=g.names[j], lab=lab)
    M = c.call(pc.MediumForPartialCube, G)
    c.eq(set(M), set(G), 'medium has other states', G=G)
    for v in G:
        for w in G[v]:
            c.check(any(M(v, t) == w for t in M.tokens()),
                    'no token follows an edge', G=G, edge=(v, w))
        for t in M.tokens():
            x = M(v, t)
            c.check(x == v or x in G[v], 'token does not follow an edge',
                    G=G, v=v, t=t)
            if x != v:
                c.eq(M(x, M.reverse(t)), v, 'reverse token does not lead '
                     'back', G=G, v=v, t=t)
    lab = c.call(pc.PartialCubeEdgeLabeling, G)
    theta = {}
    for a, b in E:
        for u, v in ((a, b), (b, a)):
            # directed classes: an edge determines the half spaces
            theta[u, v] = frozenset(x for x in range(n)
                                    if D[x][u] < D[x][v])
    inv = {}
    for (u, v), h in theta.items():
        t = lab[g.names[u]][g.names[v]]
        c.check(inv.setdefault(t, h) == h, 'edges of different classes have '
                'the same label', G=G, edge=(g.names[u], g.names[v]))
    c.eq(len(inv), len(set(theta.values())), 'edges of one class have '
         'different labels', G=G)
    if len(E) >= n:
        c.nontrivial(g.key())


@C26.driver(450, 5000)
def cubes(c):
    rng = c.rng
    idx = bip_graph(rng)
    r = rng.random()
    if r < .25:
        idx = gens.perturb(rng, idx, 1)
    elif r < .3:
        idx = gens.union(idx, (1, []))
    elif r < .4 and idx[1]:
        n, E = idx
        E = list(E)
        E.pop(rng.randrange(len(E)))
        idx = n, E
    idx = gens.relabel(rng, idx)
    c.sample(idx)
    run_c26(c, idx)


@C26.driver(30, 300)
def cubes_large(c):
    rng = c.rng
    k = rng.randrange(4)
    if k == 0:
        idx = gens.grid(rng.randint(3, 6), rng.randint(3, 7))
    elif k == 1:
        idx = gens.random_tree(rng, rng.randint(15, 35))
    elif k == 2:
        idx = gens.hypercube(5)
    else:
        idx = gens.perturb(rng, gens.grid(4, rng.randint(3, 7)), 1)
    run_c26(c, gens.relabel(rng, idx))


@C26.driver(4, 40)
def cubes_wide(c):
    rng = c.rng
    k = rng.randrange(4)
    if k == 0:
        idx = gens.cycle(rng.randint(13, 75))
    elif k == 1:                # a vertex of high degree
        n, E = gens.random_tree(rng, rng.randint(1, 10))
        for _ in range(rng.randint(30, 60)):
            E = E + [(0, n)]
            n += 1
        idx = n, E
    else:
        S, L = wide_isometric(rng)
        V = sorted(S)
        ix = {x: i for i, x in enumerate(V)}
        idx = len(V), [(ix[x], ix[x | 1 << i]) for x in V for i in range(L)
                       if not x >> i & 1 and x | 1 << i in S]
    if rng.random() < .2:
        idx = gens.perturb(rng, idx, 1)
    run_c26(c, gens.relabel(rng, idx))


@C26.driver(5, 30, fixed=True)
def cubes_huge(c):
    rng = c.rng
    k = c.i % 5
    if k < 4:
        S, L = large_isometric(rng, k) if c.i else (range(128), 7)
        V = sorted(S)
        ix = {x: i for i, x in enumerate(V)}
        idx = len(V), [(ix[x], ix[x | 1 << i]) for x in V for i in range(L)
                       if not x >> i & 1 and x | 1 << i in S]
    else:
        idx = gens.cycle(rng.randint(100, 200))
    if c.i % 10 >= 5:                       # two more or two fewer edges
        idx = gens.perturb(rng, idx, 1)
    run_c26(c, gens.relabel(rng, idx))


@C26.driver(6, 24, fixed=True)
def cubes_spiders(c):
    """Trees, even cycles and odd ones around a vertex of high degree."""
    rng = c.rng
    p = spider(rng)
    n, E = len(p) + 1, [(q, i + 1) for i, q in enumerate(p)]
    k = c.i % 3
    if k:                               # close some legs to cycles
        for _ in range(rng.randint(1, 3)):
            a, b = rng.sample([i + 1 for i, q in enumerate(p) if not q], 2)
            if k == 1:                  # squares around the middle
                E += [(a, n), (b, n)]
                n += 1
            else:
                E.append((min(a, b), max(a, b)))
    idx = n, sorted(set(E))
    run_c26(c, gens.relabel(rng, idx) if rng.random() < .7 else idx)


@C26.driver(8, 80)
def cubes_tails(c):
    """Small graphs, partial cubes or not, with long trees attached."""
    rng = c.rng
    n, E = bip_graph(rng)
    E = list(E)
    if rng.random() < .7:       # another edge between two sides, or a twin
        A = gens.adjacency(n, E)
        D = gens.bfs_dist(A, 0)
        P = [(u, v) for u in range(n) for v in range(u) if u in D and v in D
             and (D[u] - D[v]) % 2 and v not in A[u]]
        for u, v in rng.sample(P, min(len(P), rng.randint(0, 2))):
            E.append((v, u))
        if rng.random() < .5:
            E += [(w, n) for w in A[rng.randrange(n)]]
            n += 1
    far = rng.random() < .5
    for k in range(rng.randint(20, 90)):
        E.append((n - 1 if far and k else rng.randrange(n), n))
        n += 1
    run_c26(c, gens.relabel(rng, (n, E)))


@C26.driver(30, 300)
def cubes_directed(c):
    n, E = bip_graph(c.rng)
    if not E:
        n, E = gens.path(2)
    D = set(E) | {(v, u) for u, v in E}
    D.discard(c.rng.choice(sorted(D)))
    g = gens.build(c.rng, n, sorted(D), directed=True)
    c.eq(bool(c.call(pc.isPartialCube, g.graph)), False,
         'directed graph taken for a partial cube', G=g)
    c.raises(med.MediumError, pc.PartialCubeEdgeLabeling, g.graph)


# ---------------------------------------------------------------------------
C27 = Prop(
    'C27',
    rule='implication systems over variables of every hashable kind '
         '(including clauses forcing literals, cycles through a variable and '
         'its negation, and negated keys) compared with all assignments; '
         'non-trivial: satisfiable with some but not all variables forced, '
         'or unsatisfiable',
    anchors=['pads/two_satisfiability.py', 'pads/_not.py',
             'pads/acyclic_reachability.py', 'pads/strong_connectivity.py'],
    need={'calls': 1000, 'satisfiable': 200, 'unsatisfiable': 100,
          'forced': 200})


@C27.driver(900, 12000)
def two_sat(c):
    rng = c.rng
    n = rng.randint(1, 7)
    names = gens.labels(rng, n)

    def lit(i, s):
        x = gens.copy_label(names[i])
        return x if s else Not(x)
    clauses = []
    for _ in range(rng.choice([0, 1, 2, n, n + 2, 2 * n, 3 * n])):
        i, j = rng.randrange(n), rng.randrange(n)
        if rng.random() < .85 and n > 1:
            while j == i:
                j = rng.randrange(n)
        clauses.append(((i, rng.random() < .5), (j, rng.random() < .5)))
    G = {}
    mk = rng.choice([list, set, tuple])
    for a, b in clauses:
        G.setdefault(lit(*a), []).append(lit(*b))
    for i in range(n):
        if rng.random() < .2:
            G.setdefault(lit(i, rng.random() < .5), [])
    G = {v: mk(G[v]) for v in G}
    c.note('implications', G)
    c.sample(G)
    used = {i for cl in clauses for i, _ in cl}
    for v in G:
        used.add([i for i in range(n) if names[i] == v or
                  names[i] == Not(v)][0])
    used = sorted(used)
    sols = []
    for bits in itertools.product((False, True), repeat=len(used)):
        val = dict(zip(used, bits))
        if all(val[a] != s or val[b] == t for (a, s), (b, t) in clauses):
            sols.append(val)
    c.eq(bool(c.call(sat.Satisfiable, G)), bool(sols),
         'wrong satisfiability', G=G)
    F = c.call(sat.Forced, G)
    if not sols:
        c.event('unsatisfiable')
        c.eq(F, None, 'forced values of an unsatisfiable system', G=G)
        c.nontrivial(n, clauses)
    else:
        c.event('satisfiable')
        want = {names[i]: sols[0][i] for i in used
                if len({s[i] for s in sols}) == 1}
        c.event('forced', len(want))
        c.eq(F, want, 'wrong forced values', G=G)
        if want and len(want) < len(used):
            c.nontrivial(n, clauses)
    H = c.call(sat.Symmetrize, G)
    S = {}
    for i in used:
        S[names[i]] = set()
        S[Not(names[i])] = set()
    for (a, s), (b, t) in clauses:
        S[lit(a, s)].add(lit(b, t))
        S[lit(b, not t)].add(lit(a, not s))
    c.eq({v: set(H[v]) for v in H}, S, 'wrong contrapositives', G=G)


@C27.driver(60, 600)
def two_sat_large(c):
    """Chains and larger systems, against unit propagation by search."""
    rng = c.rng
    n = rng.randint(20, 60) if rng.random() < .95 else rng.randint(100, 200)
    if c.i < 4:
        n = rng.randint(300, 500)
    names = gens.labels(rng, n)
    sol = [rng.random() < .5 for _ in range(n)]
    planted = rng.random() < .6
    clauses = []
    while len(clauses) < rng.choice([n // 2, n, 3 * n // 2]):
        i, j = rng.randrange(n), rng.randrange(n)
        s, t = rng.random() < .5, rng.random() < .5
        if i != j and (not planted or sol[i] != s or sol[j] == t):
            clauses.append(((i, s), (j, t)))
    if rng.random() < .3:
        # a cycle of implications through many literals, maybe not closed
        m = rng.randint(n // 2, n)
        walk = [(i, rng.random() < .5) for i in rng.sample(range(n), m)]
        for _ in range(rng.choice([0, 1, 2, m])):
            i, s = rng.choice(walk)
            walk.insert(rng.randint(0, m), (i, not s))
        clauses = list(zip(walk, walk[1:] + walk[:1]))
        if rng.random() < .4:
            del clauses[rng.randrange(len(clauses))]
    if rng.random() < .3:                   # literals in many clauses
        hub, s = rng.randrange(n), rng.random() < .5
        for i in rng.sample(range(n), rng.randint(2, n)):
            e = hub, s if rng.random() < .97 else not s
            f = i, sol[i] == (rng.random() < .97)
            if i != hub:
                clauses.append((e, f) if rng.random() < .5 else (f, e))
        rng.shuffle(clauses)
    G = {}
    for (i, s), (j, t) in clauses:
        a = names[i] if s else Not(names[i])
        b = names[j] if t else Not(names[j])
        G.setdefault(a, []).append(b)
    imp = {}
    for (i, s), (j, t) in clauses:
        imp.setdefault((i, s), set()).add((j, t))
        imp.setdefault((j, not t), set()).add((i, not s))

    def reach(a):
        seen = {a}
        todo = [a]
        while todo:
            for y in imp.get(todo.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen
    used = {i for cl in clauses for i, _ in cl}
    want = {}
    ok = True
    for i in used:
        f = (i, False) in reach((i, True))
        t = (i, True) in reach((i, False))
        if f and t:
            ok = False
        elif f or t:
            want[names[i]] = t
    c.event('satisfiable' if ok else 'unsatisfiable')
    c.eq(bool(c.call(sat.Satisfiable, G)), ok, 'wrong satisfiability', G=G)
    c.eq(c.call(sat.Forced, G), want if ok else None, 'wrong forced values',
         G=G)
    H = c.call(sat.Symmetrize, G)
    S = {}
    for i in used:
        S[names[i]] = set()
        S[Not(names[i])] = set()

    def lit(a):
        return names[a[0]] if a[1] else Not(names[a[0]])
    for a in imp:
        S[lit(a)] = {lit(b) for b in imp[a]}
    c.eq({v: set(H[v]) for v in H}, S, 'wrong contrapositives', G=G)
    c.nontrivial(n, clauses)


# ---------------------------------------------------------------------------
C28 = Prop(
    'C28',
    rule='pairs of Python values of every kind (equal across types, '
         'unhashable, colliding hashes, negations themselves); non-trivial: '
         'distinct pairs of values',
    anchors=['pads/_not.py'],
    need={'pairs': 5000, 'equal_pairs': 500, 'hashed': 1000,
          'rejections': 100})

VALUES = [0, 1, True, False, 1.0, 0.0, -1, -2, 2, 10 ** 20, '', 'a', 'Not(a)',
          (), (1,), (1.0,), [1], [1.0], [], {}, {'a': 1}, {1, 2},
          frozenset([1, 2]), None, b'', b'a', 1 + 0j, 2.5, float('inf'),
          range(3), (0, (1, 2)), Ellipsis, int, len, 'x' * 50, -10 ** 20]


class Contrary(gens.Valued):
    """Equal by value, yet always unequal."""
    __hash__ = gens.Valued.__hash__

    def __ne__(self, other):
        return True


@C28.driver(400, 4000)
def negation(c):
    rng = c.rng
    L = rng.sample(VALUES, 8) + [
        gens.Valued(rng.randrange(3), rng.randrange(3)) for _ in range(3)] + [
        gens.Opaque(1, rng.randrange(2)) for _ in range(2)] + [
        Contrary(7, rng.randrange(2)) for _ in range(2)] + [
        gens.copy_label((300, 'ab')), rng.randint(-5, 5), rng.random(),
        Not(rng.choice(VALUES)), ('t', Not(1)), Not(('t', Not(1)))]
    for x in L:
        y = c.call(Not, x)
        c.eq(Not(y) == x, True, 'double negation differs', x=x)
        c.eq(isinstance(y, SymbolicNegation),
             not isinstance(x, SymbolicNegation),
             'negation is not recognisable', x=x)
        c.check(y != x and not (y == x), 'value equals its negation', x=x)
        try:
            hash(x)
            hashable = True
        except TypeError:
            hashable = False
        if hashable:
            c.event('hashed')
            D = {x: 'x', y: 'y'}
            c.eq((len(D), D[x], D[y], D[Not(y)], D[Not(x)]),
                 (2, 'x', 'y', 'x', 'y'), 'negation unusable as a key', x=x)
        else:
            c.raises(TypeError, hash, y)
        if isinstance(y, SymbolicNegation):
            c.eq(repr(y), 'Not(' + repr(x) + ')', 'wrong text')
            c.raises(DoubleNegationError, SymbolicNegation, y)
    for x in L:
        for y in L:
            c.event('pairs')
            e = x == y
            if e:
                c.event('equal_pairs')
            c.eq(Not(x) == Not(y), e, 'equality of negations differs', x=x,
                 y=y)
            c.eq(Not(x) != Not(y), not e, 'inequality of negations differs',
                 x=x, y=y)
            if e:
                try:
                    hx = hash(x) == hash(y)
                except TypeError:
                    continue
                if hx:
                    c.eq(hash(Not(x)), hash(Not(y)),
                         'equal negations hash differently', x=x, y=y)
            c.nontrivial(repr(type(x)), repr(type(y)), c.i)


PROPS = [C04, C22, C23, C24, C25, C26, C27, C28]
