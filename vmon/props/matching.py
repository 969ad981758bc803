"""C01 general matching, C02 bipartite matching, C03 imperfect edges."""
from ..core import Prop
from .. import gens, oracles
from pads.cardinality_matching import matching, greedy_matching
from pads import bipartite_matching as bm

# ---------------------------------------------------------------------------
C01 = Prop(
    'C01',
    rule='graph families (exhaustive tiny, random, blossom-rich, large with '
         'long alternating paths) x initial matchings x vertex objects x '
         'adjacency types; non-trivial: at least 2 matched edges or an odd '
         'component that leaves a vertex exposed',
    anchors=['pads/cardinality_matching.py'],
    need={'calls': 200, 'augmented_beyond_greedy': 5,
          'initial_matching_used': 20})


def valid_matching(c, g, M, what):
    """Monitor: M is a symmetric mapping along edges of g."""
    c.check(hasattr(M, 'items'), what + ': result is not a mapping', result=M)
    A = g.adj()
    used = set()
    for v, w in M.items():
        c.check(v in g.index and w in g.index, what + ': foreign vertex',
                pair=(v, w), graph=g)
        i, j = g.index[v], g.index[w]
        c.check(j in A[i], what + ': matched pair is not an edge',
                pair=(v, w), graph=g, M=M)
        c.check(w in M and M[w] == v, what + ': matching is not symmetric',
                pair=(v, w), graph=g, M=M)
        used.add((min(i, j), max(i, j)))
    c.eq(2 * len(used), len(M), what + ': vertex matched twice', M=M)
    return used


def maximal(c, g, M, what):
    for i, j in g.edges:
        c.check(g.names[i] in M or g.names[j] in M,
                what + ': an edge can be added', graph=g, M=M,
                edge=(g.names[i], g.names[j]))


def random_initial(rng, g):
    """A random (not necessarily maximal) valid matching, as a dict."""
    E = list(g.edges)
    rng.shuffle(E)
    M = {}
    keep = rng.choice([.3, .6, 1.0])
    for u, v in E:
        a, b = g.names[u], g.names[v]
        if a not in M and b not in M and rng.random() < keep:
            M[a] = b
            M[b] = a
    return M


def run_c01(c, g, best):
    rng = c.rng
    G = g.graph
    c.note('graph', g)
    gm = c.call(greedy_matching, G)
    ge = valid_matching(c, g, gm, 'greedy')
    maximal(c, g, gm, 'greedy')
    M = c.call(matching, G)
    me = valid_matching(c, g, M, 'matching')
    c.eq(len(me), best, 'matching is not maximum', graph=g, M=M)
    if len(ge) < best:
        c.event('augmented_beyond_greedy')
    if len(me) >= 2 or len(M) < g.n:
        c.nontrivial(g.key())
    # with an initial matching
    I = random_initial(rng, g)
    if I:
        c.event('initial_matching_used')
    c.note('initial', I)
    M2 = c.call(matching, G, I)
    me2 = valid_matching(c, g, M2, 'matching from initial')
    c.eq(len(me2), best, 'matching from initial matching is not maximum',
         graph=g, initial=I, M=M2)
    for v in I:
        c.check(v in M2, 'vertex of the initial matching became unmatched',
                graph=g, initial=I, M=M2, vertex=v)
    g2 = c.call(greedy_matching, G, I)
    valid_matching(c, g, g2, 'greedy from initial')
    maximal(c, g, g2, 'greedy from initial')
    for v in I:
        c.check(v in g2 and g2[v] == I[v],
                'greedy matching changed the initial matching',
                graph=g, initial=I, M=g2)
    # a maximum matching as initial matching stays maximum
    M3 = c.call(matching, G, M2)
    c.eq(len(valid_matching(c, g, M3, 'matching from maximum')), best,
         'size changed when restarted from a maximum matching')
    c.sample(G)


@C01.driver(420, 6000)
def tiny(c):
    """All graphs on up to 5 vertices, then random small ones."""
    if c.i < 76:
        n = 4 if c.i < 64 else 3
        k = c.i if c.i < 64 else (c.i - 64) % 8
        idx = gens.graph_number(n, k)
    else:
        idx = gens.small_undirected(c.rng, 10)
    g = gens.build(c.rng, *idx)
    run_c01(c, g, oracles.matching_size_dp(g.n, g.edges))


def flower(rng):
    """Odd cycles, stems and cliques chained together: many blossoms."""
    g = gens.cycle(rng.choice([3, 5, 7]))
    for _ in range(rng.randint(1, 7)):
        part = rng.choice([
            gens.cycle(rng.choice([3, 3, 5, 7])), gens.path(rng.choice(
                [2, 3, 4])), gens.complete(rng.choice([3, 5]))])
        if rng.random() < .7:
            g = gens.glue(rng, g, part, rng.choice([1, 1, 2]))
        else:
            n, E = gens.union(g, part)
            E = E + [(rng.randrange(g[0]), g[0] + rng.randrange(part[0]))]
            g = n, E
    return gens.relabel(rng, g)


@C01.driver(420, 6000)
def blossoms(c):
    rng = c.rng
    g = flower(rng)
    if rng.random() < .5:
        g = gens.perturb(rng, g)
    g = gens.build(rng, *g)
    run_c01(c, g, oracles.matching_size(g.n, g.edges))


@C01.driver(160, 2500)
def medium(c):
    rng = c.rng
    k = rng.randrange(5)
    if k == 0:
        n = rng.randint(10, 60)
        idx = gens.gnm(rng, n, int(n * rng.choice([1, 1.2, 1.5, 1.8])))
    elif k == 1:
        n = rng.choice([8, 10, 12, 14, 16, 20, 24, 30])
        idx = gens.random_cubic(rng, n) or gens.prism(n // 2)
        if rng.random() < .5:
            m, E = idx
            E = [e for e in E if rng.random() < .85]
            idx = m, E
    elif k == 2:
        idx = gens.block_tree(rng, rng.randint(5, 15), 7)
    elif k == 3:
        idx = gens.union(flower(rng), flower(rng), flower(rng))
        n, E = idx
        E = list(E)
        for _ in range(rng.randint(1, 6)):
            u, v = rng.sample(range(n), 2)
            e = (min(u, v), max(u, v))
            if e not in E:
                E.append(e)
        idx = n, E
    else:
        idx = gens.medium_undirected(rng, 50)
    g = gens.build(rng, *idx)
    run_c01(c, g, oracles.matching_size(g.n, g.edges))


@C01.driver(24, 200)
def adversarial_start(c):
    """Long augmenting paths forced by a bad initial matching."""
    rng = c.rng
    n = rng.choice([100, 301, 600, 1200])
    k = rng.randrange(3)
    if k == 0:
        n += n % 2                          # even path, all inner matched
        idx = gens.path(n)
        best = n // 2
        I = [(i, i + 1) for i in range(1, n - 2, 2)]
    elif k == 1:
        n += 1 - n % 2                      # odd cycle
        idx = gens.cycle(n)
        best = n // 2
        I = [(i, i + 1) for i in range(1, n - 3, 2)]
    else:
        m = n // 4                          # triangles strung on a path
        E = []
        for i in range(m):
            a = 4 * i
            E += [(a, a + 1), (a + 1, a + 2), (a, a + 2), (a + 2, a + 3)]
            if i:
                E.append((a - 1, a))
        idx = 4 * m, E
        best = 2 * m
        I = []
        for i in range(1, m):
            I.append((4 * i - 1, 4 * i))
            I.append((4 * i + 1, 4 * i + 2))
    g = gens.build(rng, *idx, kinds=['int', 'shuffled', 'str', 'valued'])
    init = {}
    for u, v in I:
        init[g.names[u]] = g.names[v]
        init[g.names[v]] = g.names[u]
    M = c.call(matching, g.graph, init)
    c.eq(len(valid_matching(c, g, M, 'long')), best,
         'matching is not maximum on a large graph', family=k, n=g.n)
    for v in init:
        c.check(v in M, 'initially matched vertex became unmatched')
    M = c.call(matching, g.graph)
    c.eq(len(valid_matching(c, g, M, 'long')), best,
         'matching is not maximum on a large graph', family=k, n=g.n)
    c.event('augmented_beyond_greedy')
    c.nontrivial(k, n, c.i)


@C01.driver(24, 120, fixed=True)
def planted_large(c):
    """Large graphs whose maximum is known: from a hidden perfect matching,
    or from more odd parts than vertices between them."""
    rng = c.rng
    k = c.i % 4
    E = set()
    tail = None

    def add(u, v):
        if u != v:
            E.add((min(u, v), max(u, v)))
    if k == 0:                              # hidden perfect matching
        n = 2 * rng.randint(100, 400)
        V = rng.sample(range(n), n)
        for a, b in zip(V[::2], V[1::2]):
            add(a, b)
        for _ in range(int(n * rng.choice([.3, .7, 1, 2]))):
            add(rng.randrange(n), rng.randrange(n))
        best = n // 2
    elif k == 1:                            # odd cycle with one way out
        n = m = 2 * rng.randint(30, 500) + 1
        for i in range(n):
            add(i, (i + 1) % n)
        tail = rng.randrange(n)
        add(tail, n)
        for i in range(n + 1, n + 1 + 2 * rng.randint(0, 20)):
            add(i - 1, i)
            n += 1
        n += 1
        best = n // 2
    else:                                   # odd parts around a few hubs
        hubs = rng.randint(1, 30)
        n = hubs
        odd = hubs + rng.randint(0, 12)
        for _ in range(odd):
            m = 2 * rng.randint(0, 3 if rng.random() < .9 else 40) + 1
            for i in range(m):
                if m > 1:
                    add(n + i, n + (i + 1) % m)
            for _ in range(rng.randint(0, m)):
                add(n + rng.randrange(m), n + rng.randrange(m))
            for h in range(hubs):
                if k == 2 or rng.random() < .5 or _ == h:
                    add(h, n + rng.randrange(m))
            n += m
        best = None if k == 3 else (n - odd + hubs) // 2
    E = sorted(E)
    if best is None:
        best = oracles.matching_size(n, E)
    idx = (n, E) if k == 1 or rng.random() < .3 else \
        gens.relabel(rng, (n, E))
    g = gens.build(rng, *idx, kinds=['int', 'shuffled', 'str', 'valued'])
    c.note('kind', k, n, len(E))
    init = {}
    if k == 1:                              # all of the cycle but one vertex
        s = tail + rng.choice([1, 2, m // 2, m - 1, rng.randrange(m)])
        for i in range(1, m - 1, 2):
            a, b = g.names[(s + i) % m], g.names[(s + i + 1) % m]
            init[a], init[b] = b, a
        for i in range(m + 1, n - 1, 2):
            a, b = g.names[i], g.names[i + 1]
            init[a], init[b] = b, a
    else:
        L = list(idx[1])
        rng.shuffle(L)
        for u, v in L:
            a, b = g.names[u], g.names[v]
            if a not in init and b not in init and rng.random() < .95:
                init[a], init[b] = b, a
    for start in init, None:
        M = c.call(matching, g.graph, *([] if start is None else [start]))
        c.eq(len(valid_matching(c, g, M, 'large')), best,
             'matching is not maximum on a large graph', kind=k, n=n)
    c.event('initial_matching_used')
    c.nontrivial('planted', k, n, len(E))


@C01.driver(18, 90, fixed=True)
def hubs(c):
    """Vertices with very many neighbours, of which one matters."""
    rng = c.rng
    kind = c.i % 6
    init = None
    m = rng.randint(70, 260)
    if kind == 0:           # free hub - matched pairs - one way out
        E = [(2 * i, 2 * i + 1) for i in range(m)]
        h, z = 2 * m, 2 * m + 1
        late = rng.random() < .5
        out = m - 1 if late else rng.randrange(m)
        E += [(h, 2 * i) for i in range(m)] + [(2 * out + 1, z)]
        n, best = 2 * m + 2, m + 1
        init = E[:m]
    elif kind == 1:         # complete parts, known maximum
        parts = [rng.randint(1, 60) for _ in range(rng.randint(2, 4))]
        if rng.random() < .5:
            parts.append(rng.randint(60, 130))
        of = [p for p, k in enumerate(parts) for _ in range(k)]
        n = len(of)
        E = [(i, j) for i in range(n) for j in range(i) if of[i] != of[j]]
        best = min(n // 2, n - max(parts))
    elif kind == 2:         # matched neighbours and one unmatched
        E = [(2 * i, 2 * i + 1) for i in range(m)]
        h, z = 2 * m, 2 * m + 1
        E += [(h, 2 * i + rng.randrange(2)) for i in range(m)] + [(h, z)]
        n, best = 2 * m + 2, m + 1
        init = E[:m]
    elif kind == 4:         # two free hubs, one pair between them
        k = 2 * m + 1
        E = [(2 * i, 2 * i + 1) for i in range(k)]
        h, z = 2 * k, 2 * k + 1
        E += [(h, 2 * i) for i in range(m)]
        E += [(z, 2 * i + 1) for i in range(m, 2 * m)]
        E += [(h, 4 * m), (z, 4 * m + 1)]
        n, best = 2 * k + 2, k + 1
        init = E[:k]
    elif kind == 5:         # cycles
        E, n, best = [], 0, 0
        for _ in range(rng.randint(1, 3)):
            k = rng.randint(70, 400)
            E += [(n + i, n + (i + 1) % k) for i in range(k)]
            n += k
            best += k // 2
    else:                   # hubs sharing many paths of length two
        hubs = rng.randint(2, 4)
        E, n = set(), hubs
        for _ in range(m):
            a, b = rng.sample(range(hubs), 2)
            E |= {(a, n), (b, n)}
            if rng.random() < .5:
                E |= {(n, n + 1), (rng.randrange(hubs), n + 1)}
                n += 1
            n += 1
        E = sorted(E)
        best = oracles.matching_size(n, E)
    names = list(range(n))
    if rng.random() < .7:
        rng.shuffle(names)
    order = list(E)
    if rng.random() < .6 and kind != 4:
        rng.shuffle(order)
    G = {names[v]: {} for v in (rng.sample(range(n), n)
                                if rng.random() < .6 else range(n))}
    for u, v in order:
        G[names[u]][names[v]] = G[names[v]][names[u]] = 1
    c.note('kind', kind, n, m)
    starts = [None]
    if init:
        I = {}
        for u, v in init:
            I[names[u]], I[names[v]] = names[v], names[u]
        starts.append(I)
    for I in starts:
        a = [] if I is None else [I]
        for f in matching, greedy_matching:
            M = c.call(f, G, *a)
            for v in M:
                if M[v] not in G[v] or M.get(M[v]) != v:
                    c.fail('not a matching of a graph with hubs', kind=kind,
                           n=n, v=v)
            for v in I or ():
                c.check(v in M, 'initially matched vertex became unmatched')
            if f is matching:
                c.eq(len(M), 2 * best, 'matching is not maximum with hubs',
                     kind=kind, n=n)
            else:
                c.check(all(u in M or v in M for u in G for v in G[u]),
                        'an edge can be added with hubs', kind=kind, n=n)
                for v in I or ():
                    c.eq(M[v], I[v], 'greedy changed the initial matching')
    if init:
        c.event('initial_matching_used')
    c.nontrivial('hubs', kind, n, m)


@C01.driver(8, 48, fixed=True)
def long_blossoms(c):
    """Odd cycles, all matched but one vertex, with one way out near it."""
    rng = c.rng
    for _ in range(6):
        m = 2 * rng.randint(60, 600) + 1
        far = rng.choice([1, 3, 5, rng.randrange(m), rng.randrange(m)])
        order = list(range(m)) + ['p']
        if rng.random() < .3:
            rng.shuffle(order)
        elif rng.random() < .3:
            order.insert(0, order.pop())
        if rng.random() < .5:               # run the other way around
            far = -far % m
        G = {v: {} for v in order}
        for i in range(m):
            G[i][(i + 1) % m] = G[(i + 1) % m][i] = 1
        G[far]['p'] = G['p'][far] = 1
        init = {}
        for i in range(1, m, 2):
            init[i], init[i + 1] = i + 1, i
        M = c.call(matching, G, init)
        c.eq(len(M), m + 1, 'matching is not maximum on a long odd cycle',
             m=m, far=far)
        for v in M:
            if M[M[v]] != v or M[v] not in G[v]:
                c.fail('not a matching of a long odd cycle', m=m, far=far,
                       v=v)
        c.event('initial_matching_used')
        c.event('augmented_beyond_greedy')
    c.nontrivial('cycle', m, far)


@C01.driver(16, 120)
def nested(c):
    """Blossoms inside blossoms, with a perfect matching to be found."""
    rng = c.rng
    K = rng.choice([2, 5, 20, 60, 200, 1500])
    side = rng.choice([1, 2, 2, 3])
    E, I, V = [], [], []

    def pair(a, b):
        E.append((a, b))
        I.append((a, b))
        V.extend((a, b))
    for i in range(K):
        pair(('t', i), ('s', i))
        E.append((('s', i + 1), ('t', i)))
    E.append((('s', 0), ('s', 1)))
    for i in range(K - 1):
        a = 's', i + 2
        for k in range(side):
            E.append((a, ('p', i, k)))
            pair(('p', i, k), ('q', i, k))
            a = 'q', i, k
        E.append((a, ('t', i)))
    E.append((('t', K - 1), 'x'))
    V = [('s', K)] + V + ['x']
    if rng.random() < .3:
        rng.shuffle(V)
    pos = {v: i for i, v in enumerate(V)}
    E = [(pos[a], pos[b]) for a, b in E]
    g = gens.build(rng, len(V), [(min(e), max(e)) for e in E],
                   kinds=['int', 'shuffled', 'str', 'valued'])
    G = {g.names[i]: {} for i in range(len(V))}     # keep this order
    for a, b in E:
        G[g.names[a]][g.names[b]] = G[g.names[b]][g.names[a]] = 1
    init = {}
    for a, b in I:
        a, b = g.names[pos[a]], g.names[pos[b]]
        init[a], init[b] = b, a
    for start in init, None:
        M = c.call(matching, G, start)
        c.eq(2 * len(valid_matching(c, g, M, 'nested')), len(V),
             'matching is not maximum on nested blossoms', K=K, side=side)
    c.event('initial_matching_used')
    c.nontrivial('nested', K, side, c.i)


# ---------------------------------------------------------------------------
C02 = Prop(
    'C02',
    rule='bipartite graphs (random, structured, long alternating paths, '
         'same object on both sides) checked by the Koenig certificate: a '
         'matching and an independent set whose sizes add up to the number '
         'of vertices prove each other optimal; non-trivial: at least 2 '
         'matched edges and an exposed vertex or 3 edges',
    anchors=['pads/bipartite_matching.py'],
    need={'calls': 300, 'deficient': 50})


def koenig(c, graph):
    M, A, B = c.call(bm.matching, graph)
    U = set(graph)
    V = set()
    for u in graph:
        V.update(graph[u])
    seen = set()
    for v, u in M.items():
        c.check(u in U and v in graph[u], 'matched pair is not an edge',
                pair=(u, v), graph=graph, M=M)
        c.check(u not in seen, 'left vertex matched twice', u=u, graph=graph,
                M=M)
        seen.add(u)
    A, B = list(A), list(B)
    c.eq(len(set(A)), len(A), 'repeated vertex in the independent set')
    c.eq(len(set(B)), len(B), 'repeated vertex in the independent set')
    SB = set(B)
    c.check(set(A) <= U, 'independent set leaves the left side',
            A=A, graph=graph)
    c.check(SB <= V, 'independent set leaves the right side', B=B,
            graph=graph)
    for u in A:
        for v in graph[u]:
            c.check(v not in SB, 'set is not independent', edge=(u, v),
                    graph=graph, A=A, B=B)
    c.eq(len(A) + len(B) + len(M), len(U) + len(V),
         'matching and independent set do not certify each other',
         graph=graph, M=M, A=A, B=B)
    if len(M) < min(len(U), len(V)):
        c.event('deficient')
    if len(M) >= 2 and (len(M) < len(U) or sum(map(len, graph.values())) > 2):
        c.nontrivial(len(U), len(V), sorted(
            (sorted(map(repr, graph[u])) for u in graph)))
    return M, A, B


def bip(rng, a, b, p, kinds=gens.LABEL_KINDS, shared=None):
    U = gens.labels(rng, a, kinds=kinds)
    if shared is None:
        shared = rng.random() < .4
    if shared:
        V = list(gens.labels(rng, b, rng.choice(['int', 'shuffled'])))
        if rng.random() < .7:
            U = list(gens.labels(rng, a, 'int'))
    else:
        V = gens.labels(rng, b, kinds=kinds)
    mk = gens.ADJ[rng.choice(gens.ADJ_KINDS)]
    idx = list(range(a))
    rng.shuffle(idx)
    out = {}
    for i in idx:
        nb = [V[j] for j in range(b) if p(i, j)]
        rng.shuffle(nb)
        out[U[i]] = mk(nb)
    return out


@C02.driver(900, 12000)
def small_bipartite(c):
    rng = c.rng
    a, b = rng.randint(0, 7), rng.randint(1, 7)
    d = rng.choice([.1, .2, .3, .5, .7, .95])
    g = bip(rng, a, b, lambda i, j: rng.random() < d)
    c.sample(g)
    M, A, B = koenig(c, g)
    c.eq(len(M), len(oracles.kuhn(g)), 'matching is not maximum', graph=g)


@C02.driver(200, 3000)
def structured_bipartite(c):
    rng = c.rng
    n = rng.randint(5, 60)
    k = rng.randrange(6)
    if k == 0:                              # half-graph
        p = lambda i, j: j <= i
    elif k == 1:                            # few neighbours each
        S = [set(rng.sample(range(n), min(n, rng.randint(1, 3))))
             for _ in range(n)]
        p = lambda i, j: j in S[i]
    elif k == 2:                            # many compete for few
        h = max(1, n // 4)
        p = lambda i, j: j < h or (i == n - 1)
    elif k == 3:                            # path-like
        p = lambda i, j: j in (i, i + 1)
    elif k == 4:                            # blocks
        p = lambda i, j: i // 4 == j // 3 or rng.random() < .02
    else:
        p = lambda i, j: (i * j) % 7 == 3 or i == j + 1
    g = bip(rng, n, n, p)
    koenig(c, g)


@C02.driver(8, 60)
def long_paths(c):
    """Augmenting paths far longer than any recursion limit."""
    rng = c.rng
    n = rng.choice([1200, 3000, 5000])
    g = {}
    order = list(range(n + 1))
    for i in range(n):
        g[i] = [i, i + 1]
    g[n] = [0]
    if c.i % 2:
        g = {u: list(reversed(g[u])) for u in order}
    if c.i % 4 >= 2:
        rng.shuffle(order)
        g = {u: g[u] for u in order}
    M, A, B = koenig(c, g)
    c.eq(len(M), n + 1, 'perfect matching of a long path not found', n=n)
    # remove the way out: one vertex must stay exposed
    h = {u: [v for v in g[u] if v != n] for u in g}
    M, A, B = koenig(c, h)
    c.eq(len(M), n, 'matching of a deficient long path', n=n)


@C02.driver(12, 80, fixed=True)
def wide(c):
    """Many vertices at the same alternating distance, large degrees."""
    rng = c.rng
    n = rng.choice([70, 150, 300, 600])
    k = c.i % 4
    R = [('r', i) for i in range(n + 2)]
    L = [('l', i) for i in range(n + 2)] if rng.random() < .7 else list(R)
    if k == 0:          # one neighbour of the last vertex has a way out
        g = {L[i]: [R[i]] for i in range(n)}
        g[L[rng.randrange(n)]].append(R[n])
        g[L[n]] = rng.sample(R[:n], n)
        want = n + 1
    elif k == 1:        # many compete for few
        h = rng.randint(n // 4, n - 5)
        g = {L[i]: [v for v in R[:h] if rng.random() < .5] for i in range(n)}
        want = None
    elif k == 2:        # few choose among many
        h = rng.randint(3, n // 4)
        g = {L[i]: [v for v in R[:n] if rng.random() < .5] for i in range(h)}
        want = None
    else:               # a wide layer behind each of several hubs
        h = rng.randint(2, 6)
        g = {L[i]: [R[i]] for i in range(n - h)}
        for i in range(n - h):
            if rng.random() < .02:
                g[L[i]].append(R[n - h + rng.randrange(h)])
        for i in range(h):
            g[L[n - h + i]] = rng.sample(R[:n - h], n - h)
        want = None
    order = list(g)
    if rng.random() < .4:
        rng.shuffle(order)
    for u in g:
        if rng.random() < .5:
            rng.shuffle(g[u])
    kind = rng.choice([list, tuple, dict.fromkeys, set])
    g = {u: kind(g[u]) for u in order}
    M, A, B = koenig(c, g)
    if want is not None:
        c.eq(len(M), want, 'matching is not maximum', n=n, kind=k)
    c.event('wide')


# ---------------------------------------------------------------------------
C03 = Prop(
    'C03',
    rule='bipartite graphs with a planted perfect matching plus sparse extra '
         'edges (so that forced blocks appear), plus graphs without perfect '
         'matching; every edge is compared with deletion-based membership in '
         'a perfect matching; non-trivial: a perfect matching exists and '
         'some but not all edges are imperfect',
    anchors=['pads/bipartite_matching.py'],
    need={'calls': 200, 'no_perfect_matching': 20, 'imperfect_edges': 100})


def imperfect_oracle(graph):
    """Set of edges in no perfect matching, and whether one exists."""
    U = set(graph)
    V = set()
    E = []
    for u in graph:
        for v in graph[u]:
            V.add(v)
            E.append((u, v))
    if len(U) != len(V) or len(oracles.kuhn(graph)) != len(U):
        return None, set(E), U, V
    bad = set()
    for u, v in E:
        M = oracles.kuhn(graph, banned_u={u}, banned_v={v})
        if len(M) != len(U) - 1:
            bad.add((u, v))
    return True, bad, U, V


def run_c03(c, graph):
    c.note('graph', graph)
    ok, bad, U, V = imperfect_oracle(graph)
    imp = c.call(bm.imperfections, graph)
    got = {(u, v) for u in imp for v in imp[u]}
    c.eq(got, bad, 'wrong set of imperfect edges', graph=graph)
    if not ok:
        c.event('no_perfect_matching')
        return
    if bad:
        c.event('imperfect_edges', len(bad))
        if len(bad) < sum(map(len, graph.values())):
            c.nontrivial(len(U), len(bad), sorted(
                sorted(map(repr, graph[u])) for u in graph))
    good = {(u, v) for u in graph for v in graph[u]} - bad
    for u, v in bad:
        H = imp[u][v]
        HU = set(H)
        HV = set()
        for x in H:
            HV.update(H[x])
        c.check(v in HV, 'explanation does not contain the right endpoint',
                edge=(u, v), graph=graph, H=H)
        c.check(u not in HU, 'explanation contains the left endpoint',
                edge=(u, v), graph=graph, H=H)
        c.eq(len(HU), len(HV), 'explanation sides differ in size', H=H,
             edge=(u, v), graph=graph)
        for x in HU:
            c.eq(set(H[x]), set(graph[x]) & HV,
                 'explanation is not an induced subgraph', H=H,
                 edge=(u, v), graph=graph)
        for x, y in good:
            c.check((x in HU) == (y in HV),
                    'explanation vertices need not be matched to each other',
                    H=H, edge=(u, v), graph=graph)


@C03.driver(500, 6000)
def planted(c):
    rng = c.rng
    n = rng.randint(1, 9)
    perm = list(range(n))
    rng.shuffle(perm)
    d = rng.choice([.05, .1, .2, .3, .5])
    m = rng.randrange(4)
    if m == 0:          # triangular: long chains of forced pairs
        p = lambda i, j: perm[i] == j or (i < perm.index(j)
                                          and rng.random() < d * 2)
    elif m == 1:        # blocks with one-way edges between them
        s = rng.randint(2, 3)
        p = lambda i, j: (i // s == perm.index(j) // s) or \
            (i // s < perm.index(j) // s and rng.random() < d)
    else:
        p = lambda i, j: perm[i] == j or rng.random() < d
    g = bip(rng, n, n, p)
    c.sample(g)
    run_c03(c, g)


@C03.driver(240, 2400)
def arbitrary(c):
    rng = c.rng
    a, b = rng.randint(1, 6), rng.randint(1, 6)
    d = rng.choice([.2, .4, .6, .9])
    run_c03(c, bip(rng, a, b, lambda i, j: rng.random() < d))


@C03.driver(16, 120)
def larger(c):
    rng = c.rng
    n = rng.randint(15, 40)
    S = [set(rng.sample(range(n), rng.randint(0, 2))) | {i}
         for i in range(n)]
    run_c03(c, bip(rng, n, n, lambda i, j: j in S[i]))


@C03.driver(8, 60, fixed=True)
def blocks(c):
    """Blocks with many perfect matchings, and one-way edges between them."""
    rng = c.rng
    k = rng.randint(2, 8)
    sizes = [rng.choice([1, 2, rng.randint(3, 30), rng.randint(10, 120)])
             for _ in range(k)]
    if rng.random() < .5:
        sizes = [sizes[-1] + 9] * k
    G = {}
    where, of = {}, []
    for b, s in enumerate(sizes):
        left = [('L', b, i) for i in range(s)]
        right = [('R', b, i) for i in range(s)]
        rng.shuffle(right)
        for i, u in enumerate(left):
            where[u] = b
            where[right[i]] = b
            # a cycle through the whole block, or a single edge
            G[u] = [right[i]] + ([right[(i + 1) % s]] if s > 1 else [])
            if s > 2 and rng.random() < .3:
                G[u] = list(dict.fromkeys(G[u] + [rng.choice(right)]))
        of.append((left, right))
    for _ in range(rng.randint(0, 6 * k)):
        a, b = sorted(rng.sample(range(k), 2))
        u, v = rng.choice(of[a][0]), rng.choice(of[b][1])
        if v not in G[u]:
            G[u].append(v)
    if c.i % 2:                 # vertices with very many neighbours
        for _ in range(rng.randint(1, 3)):
            a = rng.randrange(k)
            u = rng.choice(of[a][0])
            G[u] = list(dict.fromkeys(
                G[u] + [v for b in range(a, k) for v in of[b][1]
                        if rng.random() < .9]))
        b = rng.randrange(k)
        v = rng.choice(of[b][1])
        for a in range(b + 1):
            for u in of[a][0]:
                if v not in G[u] and rng.random() < .9:
                    G[u].append(v)
    order = list(G)
    rng.shuffle(order)
    kind = rng.choice([list, set, tuple, dict.fromkeys])
    for u in order:
        rng.shuffle(G[u])
    G = {u: kind(G[u]) for u in order}
    c.note('graph', G)
    imp = c.call(bm.imperfections, G)
    got = {(u, v) for u in imp for v in imp[u]}
    want = {(u, v) for u in G for v in G[u] if where[u] != where[v]}
    c.eq(got, want, 'wrong set of imperfect edges', graph=G)
    for u, v in want:
        c.eq({x: set(y) for x, y in imp[u][v].items()},
             {x: {y for y in G[x] if where[y] == where[x]}
              for x in of[where[v]][0]}, 'wrong explanation', edge=(u, v),
             graph=G)
    c.event('imperfect_edges', len(want))
    c.nontrivial('blocks', sizes, len(want))
    # and no perfect matching any more
    u = rng.choice(order)
    H = dict(G)
    H['extra'] = kind(list(G[u])[:1])
    imp = c.call(bm.imperfections, H)
    c.eq({(u, v) for u in imp for v in imp[u]},
         {(u, v) for u in H for v in H[u]}, 'wrong set of imperfect edges',
         graph=H)
    c.event('no_perfect_matching')
    u = rng.choice([order[-1], rng.choice(order), max(order, key=lambda x:
                                                      len(G[x]))])
    H = dict(G)
    H[u] = kind(list(G[u]) + ['extra'])
    imp = c.call(bm.imperfections, H)
    c.eq({(u, v) for u in imp for v in imp[u]},
         {(u, v) for u in H for v in H[u]}, 'wrong set of imperfect edges',
         graph=H)


PROPS = [C01, C02, C03]
