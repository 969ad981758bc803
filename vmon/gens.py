"""Generators of workloads: vertex labels, graphs, trees, sequences.

Graphs are generated as (n, edges) over 0..n-1 and turned into the library's
representation (a dict from vertices to collections of neighbours) with
varied vertex objects, orders and collection types.
"""
import itertools


# ---------------------------------------------------------------------------
# vertex objects

class Opaque:
    """Vertex with identity equality and no ordering."""
    __slots__ = ('n', 'h')

    def __init__(self, n, h):
        self.n = n
        self.h = h

    def __hash__(self):
        return self.h

    def __repr__(self):
        return '<o%d>' % self.n


class Valued:
    """Vertex with value equality (equal copies exist) and no ordering."""
    __slots__ = ('n', 'h')

    def __init__(self, n, h):
        self.n = n
        self.h = h

    def __eq__(self, other):
        return isinstance(other, Valued) and self.n == other.n

    def __hash__(self):
        return self.h

    def __repr__(self):
        return '<v%d>' % self.n


MIXED = [None, '', (), frozenset(), 0, 1.5, 'a', b'b', -7, (0,), (None,),
         'None', Ellipsis, complex(1, 2), 10 ** 30, frozenset([0]), 'x y',
         ('a', 'b'), int, -1, -2]

LABEL_KINDS = ['int', 'int', 'shuffled', 'negative', 'sparse', 'str', 'tuple',
               'frozenset', 'mixed', 'opaque', 'valued', 'collide', 'float']
ORDERABLE_KINDS = ['int', 'int', 'shuffled', 'negative', 'sparse', 'str',
                   'tuple', 'float']
FAST_KINDS = ['int', 'shuffled', 'negative', 'sparse', 'str', 'tuple',
              'frozenset', 'mixed', 'valued', 'float']


def labels(rng, n, kind=None, kinds=LABEL_KINDS):
    """n distinct hashable vertex objects."""
    if kind is None:
        kind = rng.choice(kinds)
    if kind == 'int':
        return list(range(n))
    if kind == 'shuffled':
        L = list(range(n))
        rng.shuffle(L)
        return L
    if kind == 'negative':
        L = list(range(-(n // 2) - 1, n - (n // 2) - 1))
        rng.shuffle(L)
        return L
    if kind == 'sparse':
        return rng.sample(range(-10 ** 6, 10 ** 12), n)
    if kind == 'float':
        L = [i + 0.5 for i in range(n)]
        rng.shuffle(L)
        return L
    if kind == 'str':
        L = [chr(97 + i % 26) * (1 + i // 26) for i in range(n)]
        rng.shuffle(L)
        return L
    if kind == 'tuple':
        L = [(i // 3, i % 3) for i in range(n)]
        rng.shuffle(L)
        return L
    if kind == 'frozenset':
        L = [frozenset(j for j in range(24) if i >> j & 1) for i in range(n)]
        rng.shuffle(L)
        return L
    if kind == 'mixed':
        L = list(MIXED[:n])
        L += [('pad', i) for i in range(n - len(L))]
        rng.shuffle(L)
        return L
    if kind == 'opaque':
        return [Opaque(i, rng.getrandbits(40)) for i in range(n)]
    if kind == 'valued':
        return [Valued(i, rng.getrandbits(40)) for i in range(n)]
    if kind == 'collide':
        return [Opaque(i, rng.randrange(3)) for i in range(n)]
    raise ValueError(kind)


def copy_label(x):
    """An equal object, distinct from x when the type allows that."""
    if type(x) is Valued:
        return Valued(x.n, x.h)
    if type(x) is tuple and x:
        return tuple([copy_label(y) for y in x])
    if type(x) is str and x:
        return (x + '.')[:-1]
    if type(x) is int and not -5 <= x <= 256:
        return int(str(x))
    if type(x) is float:
        return x + 0.0
    return x


ADJ = {
    'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset,
    'dict': lambda L: {x: True for x in L},
}
ADJ_KINDS = ['list', 'tuple', 'set', 'set', 'dict', 'frozenset']


class G:
    """A generated graph: n, edge set, and its library representation."""

    def __init__(self, n, edges, directed, graph, names):
        self.n = n
        self.edges = edges          # list of pairs of indices
        self.directed = directed
        self.graph = graph
        self.names = names
        self.index = {v: i for i, v in enumerate(names)}

    def adj(self):
        """Neighbour sets over indices."""
        A = [set() for _ in range(self.n)]
        for u, v in self.edges:
            A[u].add(v)
            if not self.directed:
                A[v].add(u)
        return A

    def key(self):
        return (self.n, sorted(self.edges))

    def __repr__(self):
        return repr(self.graph)


def build(rng, n, edges, directed=False, kind=None, adj=None,
          kinds=LABEL_KINDS, adjs=ADJ_KINDS, plain=False, order=None):
    """Turn an index graph into a dict of adjacency collections."""
    if plain:
        names = list(range(n))
        adj = adj or 'list'
    else:
        names = labels(rng, n, kind, kinds)
        adj = adj or rng.choice(adjs)
    A = [[] for _ in range(n)]
    for u, v in edges:
        A[u].append(v)
        if not directed:
            A[v].append(u)
    order = list(order) if order is not None else list(range(n))
    if not plain:
        mode = rng.randrange(4)
        if mode:
            rng.shuffle(order)
    fresh = not plain and rng.random() < .5
    make = ADJ[adj]
    graph = {}
    for v in order:
        if not plain:
            rng.shuffle(A[v])
        nb = [names[w] for w in A[v]]
        if fresh:
            nb = [copy_label(x) for x in nb]
        graph[names[v]] = make(nb)
    return G(n, sorted(edges), directed, graph, names)


# ---------------------------------------------------------------------------
# index graphs: families

def path(n):
    return n, [(i, i + 1) for i in range(n - 1)]


def cycle(n):
    return n, [(i, i + 1) for i in range(n - 1)] + ([(0, n - 1)] if n > 2
                                                    else [])


def star(n):
    return n, [(0, i) for i in range(1, n)]


def complete(n):
    return n, [(i, j) for i in range(n) for j in range(i + 1, n)]


def complete_bipartite(a, b):
    return a + b, [(i, a + j) for i in range(a) for j in range(b)]


def grid(a, b):
    E = []
    for i in range(a):
        for j in range(b):
            if i + 1 < a:
                E.append((i * b + j, (i + 1) * b + j))
            if j + 1 < b:
                E.append((i * b + j, i * b + j + 1))
    return a * b, E


def hypercube(d):
    return 1 << d, [(i, i | 1 << j) for i in range(1 << d) for j in range(d)
                    if not i >> j & 1]


def wheel(n):
    """Hub 0 and a rim of n vertices."""
    return n + 1, [(0, i) for i in range(1, n + 1)] + \
        [(i, i + 1) for i in range(1, n)] + ([(1, n)] if n > 2 else [])


def prism(n):
    E = []
    for i in range(n):
        j = (i + 1) % n
        E += [(min(i, j), max(i, j)), (n + min(i, j), n + max(i, j)),
              (i, n + i)]
    return 2 * n, sorted(set(E))


def moebius(n):
    """Moebius ladder on 2n vertices."""
    m = 2 * n
    E = {tuple(sorted((i, (i + 1) % m))) for i in range(m)}
    E |= {(i, i + n) for i in range(n)}
    return m, sorted(E)


def ladder(n):
    return 2 * n, [(i, i + 1) for i in range(n - 1)] + \
        [(n + i, n + i + 1) for i in range(n - 1)] + \
        [(i, n + i) for i in range(n)]


def petersen(n=5, k=2):
    E = set()
    for i in range(n):
        E.add(tuple(sorted((i, (i + 1) % n))))
        E.add((i, n + i))
        E.add(tuple(sorted((n + i, n + (i + k) % n))))
    return 2 * n, sorted(e for e in E if e[0] != e[1])


def random_tree(rng, n, mode=None):
    if mode is None:
        mode = rng.randrange(4)
    E = []
    for i in range(1, n):
        if mode == 0:
            p = rng.randrange(i)
        elif mode == 1:
            p = rng.randrange(max(0, i - 3), i)
        elif mode == 2:
            p = (i - 1) // 2
        else:
            p = i - 1 if rng.random() < .8 else rng.randrange(i)
        E.append((p, i))
    return n, E


def gnp(rng, n, p):
    return n, [(i, j) for i in range(n) for j in range(i + 1, n)
               if rng.random() < p]


def gnm(rng, n, m):
    allm = n * (n - 1) // 2
    m = min(m, allm)
    if allm <= 400:
        P = [(i, j) for i in range(n) for j in range(i + 1, n)]
        return n, rng.sample(P, m)
    S = set()
    while len(S) < m:
        a, b = rng.randrange(n), rng.randrange(n)
        if a != b:
            S.add((min(a, b), max(a, b)))
    return n, sorted(S)


def union(*parts):
    n, E = 0, []
    for m, F in parts:
        E += [(u + n, v + n) for u, v in F]
        n += m
    return n, E


def relabel(rng, g):
    n, E = g
    p = list(range(n))
    rng.shuffle(p)
    return n, [(min(p[u], p[v]), max(p[u], p[v])) for u, v in E]


def glue(rng, a, b, k=1):
    """Identify k vertices of a with k vertices of b (simple result)."""
    n, E = a
    m, F = b
    k = min(k, n, m)
    img = rng.sample(range(n), k)
    src = rng.sample(range(m), k)
    mp = {}
    nxt = n
    for s, t in zip(src, img):
        mp[s] = t
    for v in range(m):
        if v not in mp:
            mp[v] = nxt
            nxt += 1
    S = {(min(u, v), max(u, v)) for u, v in E}
    for u, v in F:
        x, y = mp[u], mp[v]
        if x != y:
            S.add((min(x, y), max(x, y)))
    return nxt, sorted(S)


def perturb(rng, g, k=None):
    """Flip a few vertex pairs."""
    n, E = g
    S = {(min(u, v), max(u, v)) for u, v in E}
    if n >= 2:
        for _ in range(rng.randrange(1, 4) if k is None else k):
            u, v = rng.sample(range(n), 2)
            S ^= {(min(u, v), max(u, v))}
    return n, sorted(S)


def block_tree(rng, nblocks, maxn=5):
    """Connected graph made of random blocks glued at cut vertices."""
    g = rng.choice([path(2), cycle(rng.randint(3, maxn)),
                    complete(rng.randint(3, maxn))])
    for _ in range(nblocks - 1):
        b = rng.choice([path(2), path(2), cycle(rng.randint(3, maxn)),
                        complete(rng.randint(3, maxn)),
                        complete_bipartite(2, rng.randint(2, 3))])
        g = glue(rng, g, b, 1)
    return g


def random_cubic(rng, n):
    """Random simple cubic graph on n (even) vertices, or None."""
    for _ in range(60):
        pts = [v for v in range(n) for _ in range(3)]
        rng.shuffle(pts)
        E = set()
        ok = True
        for i in range(0, len(pts), 2):
            u, v = sorted(pts[i:i + 2])
            if u == v or (u, v) in E:
                ok = False
                break
            E.add((u, v))
        if ok:
            return n, sorted(E)
    return None


def small_undirected(rng, maxn=9):
    """A random small undirected index graph, from varied families."""
    k = rng.randrange(16)
    n = rng.randint(1, maxn)
    if k < 5:
        return gnp(rng, n, rng.choice([.1, .2, .3, .4, .5, .6, .8]))
    if k == 5:
        return random_tree(rng, n)
    if k == 6:
        return perturb(rng, random_tree(rng, n))
    if k == 7:
        return cycle(n)
    if k == 8:
        return perturb(rng, cycle(max(n, 3)))
    if k == 9:
        return block_tree(rng, rng.randint(1, 3), 4)
    if k == 10:
        a = rng.randint(1, max(1, n - 1))
        return complete_bipartite(a, max(1, n - a))
    if k == 11:
        return union(gnp(rng, max(1, n // 2), .6), gnp(rng, max(1, n // 2),
                                                       .6))
    if k == 12:
        return perturb(rng, complete(n))
    if k == 13:
        a = rng.randint(1, 3)
        return grid(a, max(1, n // a))
    if k == 14:
        return perturb(rng, wheel(max(3, n - 1)))
    # random bipartite
    a = max(1, n // 2)
    return n, [(i, j) for i in range(a) for j in range(a, n)
               if rng.random() < .5]


def medium_undirected(rng, maxn=60):
    """A larger undirected index graph."""
    k = rng.randrange(12)
    n = rng.randint(5, maxn)
    if k < 3:
        return gnm(rng, n, int(n * rng.choice([.5, .8, 1, 1.2, 1.5, 2, 3])))
    if k == 3:
        return random_tree(rng, n)
    if k == 4:
        return perturb(rng, random_tree(rng, n))
    if k == 5:
        return block_tree(rng, max(1, n // 4))
    if k == 6:
        a = rng.randint(2, 6)
        return perturb(rng, grid(a, max(2, n // a)))
    if k == 7:
        return cycle(n)
    if k == 8:
        return union(gnm(rng, n // 2 + 1, n), cycle(max(3, n // 3)),
                     path(max(1, n // 5)))
    if k == 9:
        return prism(max(3, n // 2))
    if k == 10:
        return hypercube(rng.randint(2, 5))
    return perturb(rng, cycle(n))


def big_undirected(rng, size=150):
    """A large undirected index graph of about that many vertices: hubs,
    cliques, wide layers, many components, long cycles, deep trees."""
    k = rng.randrange(13)
    n = rng.randint(max(4, size // 2), size)
    if k == 0:                                  # hub, some rim edges
        return n, [(0, i) for i in range(1, n)] + [
            (i, i + 1) for i in range(1, n - 1) if rng.random() < .3]
    if k == 1:
        return complete(max(4, n // 4))
    if k == 2:
        a = rng.randint(2, max(2, n // 5))
        return complete_bipartite(a, max(2, min(n - a, 900 // a)))
    if k == 3:
        return random_tree(rng, n)
    if k == 4:
        return gnm(rng, n, int(n * rng.choice([.7, 1, 1.5, 3])))
    if k == 5:
        a = rng.randint(3, 8)
        return perturb(rng, grid(a, max(2, n // a)))
    if k == 6:
        return wheel(n)
    if k == 7:                                  # many small components
        parts, m = [], 0
        while m < n:
            parts.append(small_undirected(rng, 5))
            m += parts[-1][0]
        return union(*parts)
    if k == 8:                                  # wide layers
        w = rng.randint(5, max(6, n // 3))
        E = {(i, j) for i in range(n) for j in range(
            (i // w + 1) * w, min(n, (i // w + 2) * w)) if rng.random() < .1}
        return n, sorted(E)
    if k == 9:                                  # long cycle with chords
        E = set(cycle(n)[1])
        for _ in range(rng.randint(1, 6)):
            u, v = sorted(rng.sample(range(n), 2))
            E.add((u, v))
        return n, sorted(E)
    if k == 10:                                 # caterpillar
        h = n // 2
        return n, [(i, i + 1) for i in range(h - 1)] + sorted(
            (rng.randrange(h), i) for i in range(h, n))
    if k == 11:
        return block_tree(rng, max(1, n // 4), 7)
    a = max(4, n // 6)                          # cliques joined by paths
    return glue(rng, glue(rng, complete(a), path(n - 2 * a)), complete(a))


def huge_undirected(rng, size=2500, k=None):
    """An index graph of up to that many vertices, or a dense one with
    thousands of edges."""
    k = rng.randrange(15) if k is None else k % 15
    n = rng.randint(size // 3, size)
    m = rng.randint(50, 90)
    if k == 0:
        return n, [(0, i) for i in range(1, n)] + [
            (i, i + 1) for i in range(1, n - 1) if rng.random() < .3]
    if k == 1:
        return complete(m)
    if k == 2:
        return complete_bipartite(m // 2, m)
    if k == 3:
        return random_tree(rng, n)
    if k == 4:
        return gnm(rng, n, int(n * rng.choice([.7, 1, 1.5, 3])))
    if k == 5:
        return gnp(rng, m + 20, rng.choice([.3, .5, .8]))
    if k == 6:
        a = rng.randint(2, 25)
        return perturb(rng, grid(a, max(2, n // a)))
    if k == 7:
        return wheel(n)
    if k == 8:                                  # many components
        parts, m = [], 0
        while m < n:
            parts.append(small_undirected(rng, 6))
            m += parts[-1][0]
        return union(*parts)
    if k == 9:                                  # long cycle with chords
        E = set(cycle(n)[1])
        for _ in range(rng.choice([1, 10, n // 10])):
            u, v = sorted(rng.sample(range(n), 2))
            E.add((u, v))
        return n, sorted(E)
    if k == 10:                                 # two cycles and a path
        return glue(rng, glue(rng, cycle(max(3, n // 3)),
                              path(rng.randint(1, n // 3))),
                    rng.choice([cycle(max(3, n // 3)), cycle(3), path(2)]))
    if k == 11:
        return block_tree(rng, max(1, n // 6), 9)
    if k == 14:                                 # one cut vertex, far away
        big = rng.choice([cycle(size), prism(size // 2), grid(2, size // 2)])
        return glue(rng, big, rng.choice([path(2), cycle(3), complete(4)]))
    if k == 12:                                 # cliques of several sizes
        return union(*[complete(rng.randint(20, 60)) for _ in range(3)])
    return glue(rng, glue(rng, complete(m // 2), path(n // 2)),
                complete(m))


def huge_digraph(rng, size=2500, k=None):
    return big_digraph(rng, size, lambda r, s: huge_undirected(r, s, k))


def big_digraph(rng, size=150, base=None):
    """A large directed index graph, with or without cycles."""
    n, E = (base or big_undirected)(rng, size)
    if rng.random() < .5:
        n, E = relabel(rng, (n, E))
    k = rng.randrange(5)
    if k == 0:                                  # acyclic
        return n, sorted(E)
    if k == 1:                                  # nearly acyclic
        E = set(E)
        for u, v in rng.sample(sorted(E), min(len(E), rng.randint(1, 3))):
            E.add((v, u))
        return n, sorted(E)
    if k == 2:
        return n, sorted((u, v) if rng.random() < .5 else (v, u)
                         for u, v in E)
    if k == 3:
        return n, sorted(set(E) | {(v, u) for u, v in E})
    E = set(E)
    for _ in range(rng.randint(1, max(1, n // 3))):
        E.add((rng.randrange(n), rng.randrange(n)))
    return n, sorted(E)


def random_digraph(rng, n, p, loops=False):
    return n, [(i, j) for i in range(n) for j in range(n)
               if (i != j or loops) and rng.random() < p]


def series_dag(rng, size):
    """Layers of independent vertices joined in series, some layers single:
    chains have to jump over the narrow parts."""
    layers, n = [], 0
    while n < size:
        w = min(rng.choice([1, 1, 1, 2, 3]) if layers else
                rng.choice([2, 3]), size - n)
        layers.append(list(range(n, n + w)))
        n += w
    if rng.random() < .5 and len(layers) > 2:
        w = len(layers[0])
        layers[-1] += range(n, n + w)
        n += w
    E = set()
    p = rng.choice([1, 1, .7])
    for a, b in zip(layers, layers[1:]):
        for u in a:
            for v in b:
                if rng.random() < p:
                    E.add((u, v))
    for _ in range(rng.choice([0, 0, 1, 2])):
        a, b = sorted(rng.sample(range(len(layers)), 2)) \
            if len(layers) > 1 else (0, 0)
        if a < b:
            E.add((rng.choice(layers[a]), rng.choice(layers[b])))
    return n, sorted(E)


def tree_dag(rng, n):
    """A random tree directed away from or towards its root."""
    up = rng.random() < .5
    E = []
    for v in range(1, n):
        u = rng.randrange(max(0, v - rng.choice([1, 2, 4])), v)
        E.append((n - 1 - v, n - 1 - u) if up else (u, v))
    return n, sorted(E)


def any_dag(rng, size):
    k = rng.randrange(5)
    if k == 0:
        return series_dag(rng, size)
    if k == 1:
        return tree_dag(rng, size)
    return random_dag(rng, size, rng.choice(
        [.05, .1, .2, .3, .5, .8] if size < 12 else [.02, .05, .1, .2]))


def random_dag(rng, n, p):
    q = list(range(n))
    rng.shuffle(q)
    return n, [(q[i], q[j]) for i in range(n) for j in range(i + 1, n)
               if rng.random() < p]


def small_digraph(rng, maxn=8, loops=True):
    k = rng.randrange(9)
    n = rng.randint(1, maxn)
    if k < 4:
        return random_digraph(rng, n, rng.choice([.05, .1, .15, .2, .3, .5]),
                              loops and rng.random() < .3)
    if k == 4:
        return random_dag(rng, n, rng.choice([.1, .3, .6]))
    if k == 5:
        n, E = random_dag(rng, n, rng.choice([.2, .4]))
        E = set(E)
        if n > 1:
            u, v = rng.sample(range(n), 2)
            E.add((u, v))
        return n, sorted(E)
    if k == 6:                                  # functional graph
        E = set()
        for i in range(n):
            j = rng.randrange(n)
            if loops or i != j:
                E.add((i, j))
        return n, sorted(E)
    if k == 7:                                  # directed cycles + chords
        E = {(i, (i + 1) % n) for i in range(n) if n > 1}
        for _ in range(rng.randrange(3)):
            u, v = rng.randrange(n), rng.randrange(n)
            if u != v:
                E ^= {(u, v)}
        return n, sorted(E)
    n, E = small_undirected(rng, maxn)          # symmetric
    return n, sorted(set(E) | {(v, u) for u, v in E})


def all_graphs(n):
    """All labelled undirected graphs on n vertices, by number."""
    P = [(i, j) for i in range(n) for j in range(i + 1, n)]
    return len(P), P


def graph_number(n, k):
    P = [(i, j) for i in range(n) for j in range(i + 1, n)]
    return n, [e for b, e in enumerate(P) if k >> b & 1]


def digraph_number(n, k, loops=True):
    P = [(i, j) for i in range(n) for j in range(n) if loops or i != j]
    return n, [e for b, e in enumerate(P) if k >> b & 1]


# ---------------------------------------------------------------------------
# index graph helpers shared by oracles

def adjacency(n, edges, directed=False):
    A = [set() for _ in range(n)]
    for u, v in edges:
        A[u].add(v)
        if not directed:
            A[v].add(u)
    return A


def masks(n, edges, directed=False):
    A = [0] * n
    for u, v in edges:
        A[u] |= 1 << v
        if not directed:
            A[v] |= 1 << u
    return A


def components(A, alive=None):
    """Components of an adjacency list of sets, restricted to alive."""
    n = len(A)
    seen = [False] * n
    out = []
    for s in range(n):
        if seen[s] or (alive is not None and s not in alive):
            continue
        comp = {s}
        seen[s] = True
        todo = [s]
        while todo:
            v = todo.pop()
            for w in A[v]:
                if not seen[w] and (alive is None or w in alive):
                    seen[w] = True
                    comp.add(w)
                    todo.append(w)
        out.append(comp)
    return out


def connected(A, alive=None):
    return len(components(A, alive)) <= 1


def closure(n, A):
    """Reflexive-transitive closure of successor bit masks."""
    R = [A[v] | 1 << v for v in range(n)]
    for k in range(n):
        bit = 1 << k
        rk = R[k]
        for v in range(n):
            if R[v] & bit:
                R[v] |= rk
        # R[k] itself may have grown
    changed = True
    while changed:
        changed = False
        for v in range(n):
            r = R[v]
            x = r
            m = r
            while m:
                low = m & -m
                x |= R[low.bit_length() - 1]
                m ^= low
            if x != r:
                R[v] = x
                changed = True
    return R


def bfs_dist(A, s):
    d = {s: 0}
    level = [s]
    k = 0
    while level:
        k += 1
        nxt = []
        for v in level:
            for w in A[v]:
                if w not in d:
                    d[w] = k
                    nxt.append(w)
        level = nxt
    return d


def bits(m):
    while m:
        low = m & -m
        yield low.bit_length() - 1
        m ^= low


def powerset(L):
    L = list(L)
    for k in range(len(L) + 1):
        yield from itertools.combinations(L, k)
