"""C09 blocks, C10 st-orientation, C11 bipartiteness, C12 LexBFS and
chordality, C13 degeneracy, C49 graph utilities."""
import collections
import itertools
from ..core import Prop
from .. import gens, oracles
from pads import biconnectivity as bic
from pads import bipartite as bip
from pads.lex_bfs import lex_bfs
from pads import chordal
from pads import graphdegeneracy as deg
from pads import graphs
from pads import util


def tiny_or(c, limit, other):
    """Enumerate the graphs on 4 vertices first, then random ones."""
    if c.i < 64:
        return gens.graph_number(4, c.i)
    if c.i < 72:
        return gens.graph_number(3, c.i - 64)
    if c.i < 74:
        return gens.graph_number(2, c.i - 72)
    return other(c.rng, limit)


def broken_symmetry(rng, n, E):
    """A digraph that is not a simple undirected graph, or None."""
    D = set(E) | {(v, u) for u, v in E}
    if rng.random() < .3 or not D:
        v = rng.randrange(n)
        D.add((v, v))
    else:
        D.discard(rng.choice(sorted(D)))
    return n, sorted(D)


def edge_pairs(H):
    """Undirected edges of a symmetric adjacency mapping."""
    return {frozenset((v, w)) for v in H for w in H[v]}


# ---------------------------------------------------------------------------
C09 = Prop(
    'C09',
    rule='undirected graphs (exhaustive on up to 4 vertices, block trees, '
         'perturbed cycles, disconnected) compared with blocks found by '
         'deleting each vertex; non-trivial: at least two blocks, one with '
         'three or more vertices',
    anchors=['pads/biconnectivity.py', 'pads/dfs.py'],
    need={'calls': 500, 'biconnected': 50, 'not_biconnected': 50,
          'asymmetric': 20})


def run_c09(c, g):
    G, names, n = g.graph, g.names, g.n
    c.note('graph', G)
    blocks = oracles.edge_blocks(n, g.edges)
    want = []
    for B in blocks:
        H = {}
        for u, v in B:
            H.setdefault(names[u], set()).add(names[v])
            H.setdefault(names[v], set()).add(names[u])
        want.append(H)
    touched = {v for e in g.edges for v in e}
    for v in range(n):
        if v not in touched:
            want.append({names[v]: set()})
    S = c.call(bic.BiconnectedComponents, G)
    got = [{v: set(C[v]) for v in C} for C in S]
    c.eq(len(got), len(want), 'wrong number of biconnected components', G=G,
         components=got)
    key = {frozenset((v, frozenset(H[v])) for v in H) for H in want}
    c.eq({frozenset((v, frozenset(H[v])) for v in H) for H in got}, key,
         'wrong biconnected components', G=G)
    yes = oracles.is_2connected(n, g.edges)
    c.event('biconnected' if yes else 'not_biconnected')
    c.eq(bool(c.call(bic.is_biconnected, G)), yes, 'wrong biconnectivity',
         G=G)
    if len(blocks) > 1 and max(map(len, blocks)) > 2:
        c.nontrivial(g.key())


@C09.driver(900, 12000)
def blocks_small(c):
    g = gens.build(c.rng, *tiny_or(c, 10, gens.small_undirected))
    c.sample(g)
    run_c09(c, g)


@C09.driver(120, 1500)
def blocks_medium(c):
    run_c09(c, gens.build(c.rng, *gens.medium_undirected(c.rng, 45)))


@C09.driver(8, 80)
def blocks_big(c):
    run_c09(c, gens.build(c.rng, *gens.big_undirected(c.rng, 110),
                          kinds=gens.FAST_KINDS))


@C09.driver(45, 180, fixed=True)
def blocks_huge(c):
    g = gens.relabel(c.rng, gens.huge_undirected(c.rng, 2500, c.i))
    run_c09(c, gens.build(c.rng, *g, kinds=gens.FAST_KINDS))


@C09.driver(120, 1200)
def blocks_asymmetric(c):
    rng = c.rng
    n, E = gens.small_undirected(rng, 7)
    g = gens.build(rng, *broken_symmetry(rng, n, E), directed=True)
    c.event('asymmetric')
    c.raises(ValueError, bic.BiconnectedComponents, g.graph)
    c.eq(bool(c.call(bic.is_biconnected, g.graph)), False,
         'not an undirected graph, yet biconnected', G=g)


@C09.driver(4, 12)
def blocks_deep(c):
    n = 2500
    g = gens.build(c.rng, *(gens.path(n) if c.i % 2 else gens.cycle(n)),
                   kind='int')
    L = list(c.call(bic.BiconnectedComponents, g.graph))
    c.eq(len(L), n - 1 if c.i % 2 else 1, 'blocks of a long path or cycle')
    c.eq(bool(c.call(bic.is_biconnected, g.graph)), not c.i % 2,
         'biconnectivity of a long path or cycle')


# ---------------------------------------------------------------------------
C10 = Prop(
    'C10',
    rule='biconnected graphs (exhaustive small, cycles with ears, dense) '
         'whose orientation is checked edge by edge, and graphs that are not '
         'biconnected, which must be rejected; non-trivial: at least one '
         'independent cycle beyond the first',
    anchors=['pads/biconnectivity.py'],
    need={'calls': 300, 'oriented': 150, 'rejections': 50})


def run_c10(c, g, known=False):
    G, n = g.graph, g.n
    c.note('graph', G)
    if not known and not oracles.is_2connected(n, g.edges):
        c.raises(bic.NotBiconnected, bic.st_orientation, G)
        return
    c.event('oriented')
    D = c.call(bic.st_orientation, G)
    c.eq(set(D), set(G), 'orientation has other vertices', G=G, D=D)
    arcs = [(v, w) for v in D for w in D[v]]
    c.eq(len(arcs), len(g.edges), 'wrong number of oriented edges', G=G, D=D)
    c.eq({frozenset(a) for a in arcs}, edge_pairs(G),
         'orientation has other edges', G=G, D=D)
    heads = {w for v, w in arcs}
    sources = [v for v in D if v not in heads]
    sinks = [v for v in D if not D[v]]
    c.eq(len(sources), 1, 'not exactly one source', G=G, D=D)
    c.eq(len(sinks), 1, 'not exactly one sink', G=G, D=D)
    # acyclic: peel off sources
    indeg = {v: 0 for v in D}
    for v, w in arcs:
        indeg[w] += 1
    todo, seen = list(sources), 0
    while todo:
        v = todo.pop()
        seen += 1
        for w in D[v]:
            indeg[w] -= 1
            if not indeg[w]:
                todo.append(w)
    c.eq(seen, n, 'orientation has a cycle', G=G, D=D)
    if len(g.edges) > n:
        c.nontrivial(g.key())


def ears(rng, n):
    """Cycle plus random ears: biconnected."""
    k, E = gens.cycle(rng.randint(3, max(3, n // 2)))
    E = set(E)
    while k < n:
        u, v = rng.sample(range(k), 2)
        m = rng.randint(0, min(3, n - k))
        P = [u] + list(range(k, k + m)) + [v]
        k += m
        for a, b in zip(P, P[1:]):
            E.add((min(a, b), max(a, b)))
    return k, sorted(E)


@C10.driver(700, 9000)
def orient_small(c):
    rng = c.rng
    if c.i >= 74 and rng.random() < .6:
        idx = gens.relabel(rng, ears(rng, rng.randint(3, 12)))
    else:
        idx = tiny_or(c, 8, gens.small_undirected)
        if idx[0] < 2:
            idx = gens.path(2)
    g = gens.build(rng, *idx)
    c.sample(g)
    run_c10(c, g)


@C10.driver(100, 1500)
def orient_medium(c):
    rng = c.rng
    k = rng.randrange(4)
    if k == 0:
        idx = ears(rng, rng.randint(15, 70))
    elif k == 1:
        idx = gens.medium_undirected(rng, 50)
    elif k == 2:
        idx = gens.gnp(rng, rng.randint(8, 30), .4)
    else:
        idx = gens.grid(rng.randint(2, 7), rng.randint(2, 7))
    run_c10(c, gens.build(rng, *gens.relabel(rng, idx)))


@C10.driver(8, 80)
def orient_big(c):
    run_c10(c, gens.build(c.rng, *gens.relabel(
        c.rng, gens.big_undirected(c.rng, 110)), kinds=gens.FAST_KINDS))


@C10.driver(2, 16)
def orient_deep(c):
    rng = c.rng
    idx = rng.choice([
        lambda: ears(rng, rng.randint(400, 1200)),
        lambda: gens.cycle(rng.randint(1000, 2500)),
        lambda: gens.grid(rng.randint(2, 12), rng.randint(60, 90)),
        lambda: gens.prism(rng.randint(300, 600))])()
    run_c10(c, gens.build(rng, *gens.relabel(rng, idx), kind='int'), True)


@C10.driver(45, 180, fixed=True)
def orient_huge(c):
    g = gens.relabel(c.rng, gens.huge_undirected(c.rng, 2500, c.i))
    run_c10(c, gens.build(c.rng, *g, kinds=gens.FAST_KINDS))


@C10.driver(40, 400)
def orient_asymmetric(c):
    n, E = ears(c.rng, c.rng.randint(3, 7))
    g = gens.build(c.rng, *broken_symmetry(c.rng, n, E), directed=True)
    c.raises(ValueError, bic.st_orientation, g.graph)


# ---------------------------------------------------------------------------
C11 = Prop(
    'C11',
    rule='undirected graphs, half of them bipartite or one edge away from '
         'it; colourings checked edge by edge, the odd core compared with '
         'the union of non-bipartite blocks; non-trivial: at least 3 edges',
    anchors=['pads/bipartite.py'],
    need={'calls': 500, 'bipartite': 100, 'nonbipartite': 100})


def run_c11(c, g):
    G, names, n = g.graph, g.names, g.n
    c.note('graph', G)
    yes = oracles.two_colorable(n, g.edges)
    c.event('bipartite' if yes else 'nonbipartite')
    c.eq(bool(c.call(bip.is_bipartite, G)), yes, 'wrong bipartiteness', G=G)
    c.guard(G)
    kind = c.rng.choice([set, list, tuple, None])
    kw = {} if kind is None else {'adjacency_list_type': kind}
    if yes:
        col = c.call(bip.two_color, G)
        c.eq(set(col), set(G), 'not every vertex is coloured', G=G, col=col)
        for v in col:
            c.check(col[v] in (True, False), 'unknown colour', col=col)
            for w in G[v]:
                c.check(bool(col[v]) != bool(col[w]), 'edge inside a colour '
                        'class', edge=(v, w), G=G, col=col)
        side = c.call(lambda: list(bip.bipartition(G)))
        c.eq(len(set(side)), len(side), 'side repeats a vertex', side=side)
        side = set(side)
        c.check(side <= set(G), 'side has foreign vertices', side=side)
        for v in G:
            for w in G[v]:
                c.check((v in side) != (w in side), 'edge does not cross '
                        'the bipartition', edge=(v, w), G=G, side=side)
        D = c.call(bip.bipartite_orientation, G, **kw)
        c.check(set(D) <= set(G), 'orientation has foreign vertices', D=D)
        arcs = [(v, w) for v in D for w in D[v]]
        c.eq(len(arcs), len(g.edges), 'wrong number of oriented edges', G=G,
             D=D)
        c.eq({frozenset(a) for a in arcs}, edge_pairs(G),
             'orientation has other edges', G=G, D=D)
        heads = {w for v, w in arcs}
        for v in D:
            c.check(v not in heads, 'oriented edges do not all go the same '
                    'way across', G=G, D=D)
            if kind is not None:
                c.check(isinstance(D[v], kind), 'wrong adjacency collection',
                        D=D)
    else:
        c.raises(bip.NonBipartite, bip.two_color, G)
        c.raises(bip.NonBipartite, lambda: list(bip.bipartition(G)))
        c.raises(bip.NonBipartite, bip.bipartite_orientation, G, **kw)
    H = c.call(bip.odd_core, G)
    want = {}
    for B in oracles.edge_blocks(n, g.edges):
        vs = sorted({v for e in B for v in e})
        ren = {v: i for i, v in enumerate(vs)}
        if not oracles.two_colorable(len(vs), [(ren[u], ren[v])
                                               for u, v in B]):
            for u, v in B:
                want.setdefault(names[u], set()).add(names[v])
                want.setdefault(names[v], set()).add(names[u])
    c.eq({v: set(H[v]) for v in H}, want, 'wrong odd core', G=G)
    c.release()
    if len(g.edges) >= 3:
        c.nontrivial(g.key())


def nearly_bipartite(rng, maxn):
    n = rng.randint(2, maxn)
    col = [rng.randrange(2) for _ in range(n)]
    p = rng.choice([.1, .2, .4, .7])
    E = {(i, j) for i in range(n) for j in range(i + 1, n)
         if col[i] != col[j] and rng.random() < p}
    if rng.random() < .4:
        u, v = sorted(rng.sample(range(n), 2))
        E.add((u, v))
    return n, sorted(E)


@C11.driver(900, 12000)
def color_small(c):
    rng = c.rng
    if c.i >= 74 and rng.random() < .5:
        idx = nearly_bipartite(rng, 10)
    else:
        idx = tiny_or(c, 9, gens.small_undirected)
    g = gens.build(rng, *idx)
    c.sample(g)
    run_c11(c, g)


@C11.driver(60, 600)
def color_loops(c):
    """A vertex adjacent to itself is an odd cycle."""
    rng = c.rng
    n, E = nearly_bipartite(rng, 8)
    if not oracles.two_colorable(n, E):
        return
    g = gens.build(rng, n, E + [(v, v) for v in rng.sample(
        range(n), rng.randint(1, 2))], directed=False)
    G = g.graph
    c.note('graph', G)
    c.event('loops')
    c.check(not c.call(bip.is_bipartite, G), 'self-loop accepted', G=G)
    c.raises(bip.NonBipartite, bip.two_color, G)
    c.raises(bip.NonBipartite, lambda: list(bip.bipartition(G)))
    c.raises(bip.NonBipartite, bip.bipartite_orientation, G)
    c.nontrivial('loop', g.key())


@C11.driver(80, 1000)
def color_medium(c):
    rng = c.rng
    idx = rng.choice([nearly_bipartite, gens.medium_undirected])(rng, 40)
    run_c11(c, gens.build(rng, *idx))


@C11.driver(6, 60)
def color_big(c):
    run_c11(c, gens.build(c.rng, *gens.big_undirected(c.rng, 110),
                          kinds=gens.FAST_KINDS))


@C11.driver(8, 60, fixed=True)
def color_blocks(c):
    """Large blocks, bipartite or not, of odd and even order."""
    rng = c.rng

    def block():
        k = rng.randrange(5)
        n = rng.randint(150, 700)
        if k == 0:
            a = rng.randint(3, 25)
            return gens.grid(a, max(3, n // a))
        if k == 1:
            return gens.cycle(n)
        if k == 2:
            return gens.complete_bipartite(rng.randint(2, 9), n // 4)
        if k == 3:
            a, b = rng.randint(5, 9) * 2 + 1, rng.randint(10, 16) * 2 + 1
            return gens.grid(a, b)
        return gens.wheel(n)
    g = block()
    for _ in range(rng.randint(0, 3)):
        g = gens.glue(rng, g, block())
    if c.i % 3 == 2:
        g = gens.perturb(rng, g, 1)
    run_c11(c, gens.build(rng, *gens.relabel(rng, g)))


@C11.driver(15, 90, fixed=True)
def color_huge(c):
    g = gens.relabel(c.rng, gens.huge_undirected(c.rng, 2500, c.i))
    run_c11(c, gens.build(c.rng, *g, kinds=gens.FAST_KINDS))


@C11.driver(2, 12)
def color_deep(c):
    """Long cycles and grids hung from a long path."""
    rng = c.rng
    n = rng.randint(500, 1200)
    E = [(i, i + 1) for i in range(n - 1)]
    odd = {}
    for _ in range(rng.randint(0, 3)):
        k = rng.choice([3, 4, rng.randint(5, 400)])
        at = rng.randrange(n)
        cyc = [at] + list(range(n, n + k - 1))
        n += k - 1
        for u, v in zip(cyc, cyc[1:] + cyc[:1]):
            E.append((min(u, v), max(u, v)))
            if k % 2:
                odd.setdefault(u, set()).add(v)
                odd.setdefault(v, set()).add(u)
    g = gens.build(rng, n, E, kind='int')
    G, names = g.graph, g.names
    c.event('nonbipartite' if odd else 'bipartite')
    c.eq(bool(c.call(bip.is_bipartite, G)), not odd, 'wrong bipartiteness')
    if odd:
        c.raises(bip.NonBipartite, bip.two_color, G)
    else:
        col = c.call(bip.two_color, G)
        c.check(all(bool(col[v]) != bool(col[w]) for v in G for w in G[v]),
                'edge inside a colour class')
        side = set(c.call(lambda: list(bip.bipartition(G))))
        c.check(all((v in side) != (w in side) for v in G for w in G[v]),
                'edge does not cross the bipartition')
    H = c.call(bip.odd_core, G)
    c.eq({v: set(H[v]) for v in H},
         {names[v]: {names[w] for w in odd[v]} for v in odd},
         'wrong odd core')
    c.nontrivial(g.key())


# ---------------------------------------------------------------------------
C12 = Prop(
    'C12',
    rule='chordal graphs (built by adding simplicial vertices), perturbed '
         'chordal graphs and random graphs; every visited vertex must have '
         'the lexicographically largest label at that time; elimination '
         'orders checked vertex by vertex; non-trivial: at least 4 edges',
    anchors=['pads/lex_bfs.py', 'pads/chordal.py',
             'pads/partition_refinement.py', 'pads/sequence.py'],
    need={'calls': 500, 'chordal': 100, 'not_chordal': 100})


def run_c12(c, g):
    G, n = g.graph, g.n
    A, index = g.adj(), g.index
    c.note('graph', G)
    c.guard(G)
    L = c.call(lambda: list(lex_bfs(G)))
    c.eq(len(L), n, 'wrong number of visited vertices', G=G, L=L)
    c.eq(set(L), set(G), 'wrong visited vertices', G=G, L=L)
    label = {i: [] for i in range(n)}
    for t, v in enumerate(L):
        i = index[v]
        best = max(label.values())
        c.check(label[i] == best, 'visited vertex does not have the '
                'lexicographically largest label', G=G, L=L, at=t)
        del label[i]
        for j in A[i]:
            if j in label:
                label[j].append(n - t)
    yes = oracles.chordal(n, g.edges)
    c.event('chordal' if yes else 'not_chordal')
    c.eq(bool(c.call(chordal.is_chordal, G)), yes, 'wrong chordality', G=G)
    if yes:
        P = list(c.call(chordal.perfect_elimination_ordering, G))
        c.eq(len(P), n, 'elimination order of the wrong length', G=G, P=P)
        c.eq(set(P), set(G), 'elimination order has other vertices', P=P)
        pos = {index[v]: t for t, v in enumerate(P)}
        for i in range(n):
            later = [j for j in A[i] if pos[j] > pos[i]]
            for a, b in itertools.combinations(later, 2):
                c.check(b in A[a], 'later neighbours are not a clique', G=G,
                        P=P)
    else:
        c.raises(ValueError, chordal.perfect_elimination_ordering, G)
    c.release()
    if len(g.edges) >= 4:
        c.nontrivial(g.key())


def random_chordal(rng, maxn):
    n = rng.randint(1, maxn)
    nb = [set() for _ in range(n)]
    for v in range(1, n):
        if rng.random() < .1:
            continue
        u = rng.randrange(v)
        clique = {u}
        cand = sorted(nb[u])
        rng.shuffle(cand)
        k = rng.randint(0, 4)
        for w in cand:
            if len(clique) > k:
                break
            if all(w in nb[x] for x in clique):
                clique.add(w)
        for w in clique:
            nb[v].add(w)
            nb[w].add(v)
    return n, [(u, v) for u in range(n) for v in nb[u] if u < v]


@C12.driver(1100, 14000)
def chordal_small(c):
    rng = c.rng
    if c.i < 74:
        idx = tiny_or(c, 9, gens.small_undirected)
    elif c.i < 80:
        idx = 0, []
    else:
        k = rng.randrange(4)
        if k == 0:
            idx = random_chordal(rng, 10)
        elif k == 1:
            idx = gens.perturb(rng, random_chordal(rng, 10))
        elif k == 2:
            n = rng.randint(4, 9)
            idx = gens.gnp(rng, n, rng.choice([.3, .5, .7, .85]))
        else:
            idx = gens.small_undirected(rng, 9)
        idx = gens.relabel(rng, idx)
    g = gens.build(rng, *idx)
    c.sample(g)
    run_c12(c, g)


@C12.driver(100, 1500)
def chordal_medium(c):
    rng = c.rng
    k = rng.randrange(4)
    if k == 0:
        idx = random_chordal(rng, 60)
    elif k == 1:
        idx = gens.perturb(rng, random_chordal(rng, 60))
    elif k == 2:                            # interval graph
        n = rng.randint(10, 40)
        I = [sorted(rng.sample(range(200), 2)) for _ in range(n)]
        idx = n, [(i, j) for i in range(n) for j in range(i + 1, n)
                  if I[i][0] <= I[j][1] and I[j][0] <= I[i][1]]
    else:
        idx = gens.medium_undirected(rng, 40)
    run_c12(c, gens.build(rng, *gens.relabel(rng, idx)))


@C12.driver(6, 60)
def chordal_big(c):
    run_c12(c, gens.build(c.rng, *gens.relabel(
        c.rng, gens.big_undirected(c.rng)), kinds=gens.FAST_KINDS))


@C12.driver(3, 24)
def chordal_large(c):
    rng = c.rng
    k = rng.randrange(4)
    if k == 0:
        idx = gens.random_tree(rng, rng.randint(150, 300))
    elif k == 1:
        n = rng.randint(100, 250)       # power of a path
        d = rng.randint(1, 4)
        idx = n, [(i, j) for i in range(n)
                  for j in range(i + 1, min(n, i + d + 1))]
    elif k == 2:
        idx = gens.cycle(rng.randint(100, 300))
    else:
        idx = random_chordal(rng, 250)
    if rng.random() < .3:
        idx = gens.perturb(rng, idx, 1)
    run_c12(c, gens.build(rng, *gens.relabel(rng, idx)))


@C12.driver(15, 90, fixed=True)
def chordal_huge(c):
    g = gens.relabel(c.rng, gens.huge_undirected(c.rng, 400, c.i))
    run_c12(c, gens.build(c.rng, *g, kinds=gens.FAST_KINDS))


@C12.driver(2, 12, fixed=True)
def chordal_dense(c):
    """Half of all pairs adjacent: one visit splits very many classes."""
    g = gens.gnp(c.rng, c.rng.randint(600, 800), c.rng.choice([.45, .5, .55]))
    run_c12(c, gens.build(c.rng, *g, kinds=gens.FAST_KINDS))


@C12.driver(100, 1000)
def chordal_asymmetric(c):
    n, E = gens.small_undirected(c.rng, 7)
    g = gens.build(c.rng, *broken_symmetry(c.rng, n, E), directed=True)
    c.raises(ValueError, chordal.is_chordal, g.graph)


# ---------------------------------------------------------------------------
C13 = Prop(
    'C13',
    rule='undirected graphs; every step of the elimination sequence must '
         'remove a vertex of minimum remaining degree, cores compared with '
         'repeated deletion, triangles with triples; non-trivial: degeneracy '
         'at least 2',
    anchors=['pads/graphdegeneracy.py', 'pads/bucketqueue.py'],
    need={'calls': 500, 'triangles': 200, 'cores': 500})


def kcore(A, k):
    alive = set(range(len(A)))
    while True:
        bad = [v for v in alive if len(A[v] & alive) < k]
        if not bad:
            return alive
        alive.difference_update(bad)


def run_c13(c, g):
    G, n, names, index = g.graph, g.n, g.names, g.index
    A = g.adj()
    c.note('graph', G)
    c.guard(G)
    S = c.call(lambda: list(deg.degeneracySequence(G)))
    c.eq(len(S), n, 'wrong number of vertices in the sequence', G=G, S=S)
    degs = {j: len(A[j]) for j in range(n)}
    top = 0
    for v, d in S:
        i = index[v]
        c.check(i in degs, 'vertex repeated', G=G, S=S)
        c.eq(d, degs[i], 'wrong number of later neighbours', G=G, S=S, v=v)
        c.eq(d, min(degs.values()), 'vertex of larger than minimum degree '
             'removed', G=G, S=S, v=v)
        top = max(top, d)
        del degs[i]
        for j in A[i]:
            if j in degs:
                degs[j] -= 1
    D = c.call(deg.degeneracyOrientation, G)
    c.eq(set(D), set(G), 'orientation has other vertices', G=G, D=D)
    arcs = [(v, w) for v in D for w in D[v]]
    c.eq(len(arcs), len(g.edges), 'wrong number of oriented edges', G=G, D=D)
    c.eq({frozenset(a) for a in arcs}, edge_pairs(G),
         'orientation has other edges', G=G, D=D)
    for v in D:
        c.check(len(D[v]) <= top, 'too many out-neighbours', G=G, D=D)
    if n:
        c.eq(c.call(deg.degeneracy, G), top, 'wrong degeneracy', G=G)
    want = {names[v] for v in kcore(A, top)}
    c.eq(set(c.call(deg.core, G)), want, 'wrong deepest core', G=G)
    for k in range(top + 3):
        c.event('cores')
        c.eq(set(c.call(deg.core, G, k)), {names[v] for v in kcore(A, k)},
             'wrong core', G=G, k=k)
    T = c.call(lambda: [tuple(t) for t in deg.triangles(G)])
    want = {frozenset((names[i], names[j], names[k]))
            for i in range(n) for j in A[i] if j > i
            for k in A[i] & A[j] if k > j}
    c.event('triangles', len(want))
    c.eq(len(T), len(want), 'wrong number of triangles', G=G, T=T)
    c.eq({frozenset(t) for t in T}, want, 'wrong triangles', G=G, T=T)
    c.release()
    if top >= 2:
        c.nontrivial(g.key())


@C13.driver(900, 12000)
def degenerate_small(c):
    g = gens.build(c.rng, *tiny_or(c, 10, gens.small_undirected))
    c.sample(g)
    run_c13(c, g)


@C13.driver(100, 1500)
def degenerate_medium(c):
    rng = c.rng
    k = rng.randrange(3)
    if k == 0:                      # cores of different depth joined
        idx = gens.union(gens.complete(rng.randint(3, 7)),
                         gens.cycle(rng.randint(3, 9)),
                         gens.random_tree(rng, 6),
                         gens.complete_bipartite(3, 4))
        n, E = idx
        E = set(E)
        for _ in range(rng.randint(2, 10)):
            u, v = sorted(rng.sample(range(n), 2))
            E.add((u, v))
        idx = n, sorted(E)
    elif k == 1:
        idx = random_chordal(rng, 40)
    else:
        idx = gens.medium_undirected(rng, 50)
    run_c13(c, gens.build(rng, *gens.relabel(rng, idx)))


@C13.driver(6, 60)
def degenerate_big(c):
    run_c13(c, gens.build(c.rng, *gens.big_undirected(c.rng),
                          kinds=gens.FAST_KINDS))


@C13.driver(3, 24)
def degenerate_large(c):
    rng = c.rng
    k = rng.randrange(5)
    if k == 0:
        idx = gens.complete(rng.randint(20, 45))
    elif k == 1:                    # a hub with many leaves
        n = rng.randint(100, 250)
        idx = n, [(0, i) for i in range(1, n)] + [
            (i, i + 1) for i in range(1, n - 1) if rng.random() < .3]
    elif k == 2:
        idx = gens.random_tree(rng, rng.randint(100, 300))
    elif k == 3:
        idx = gens.gnp(rng, rng.randint(60, 120), rng.choice([.05, .2]))
    else:
        idx = gens.union(gens.complete(rng.randint(20, 35)),
                         random_chordal(rng, 150))
    run_c13(c, gens.build(rng, *gens.relabel(rng, idx)))


@C13.driver(15, 90, fixed=True)
def degenerate_huge(c):
    g = gens.relabel(c.rng, gens.huge_undirected(c.rng, 1500, c.i))
    run_c13(c, gens.build(c.rng, *g, kinds=gens.FAST_KINDS))


@C13.driver(60, 600)
def degenerate_asymmetric(c):
    n, E = gens.small_undirected(c.rng, 7)
    g = gens.build(c.rng, *broken_symmetry(c.rng, n, E), directed=True)
    c.raises(TypeError, lambda: list(deg.degeneracySequence(g.graph)))
    c.raises(TypeError, deg.core, g.graph)


# ---------------------------------------------------------------------------
C49 = Prop(
    'C49',
    rule='digraphs, vertex subsets and unions of overlapping graphs, with '
         'results compared with set expressions over the edges; copies are '
         'modified to show that they are independent; non-trivial: at least '
         '3 edges',
    anchors=['pads/graphs.py', 'pads/util.py'],
    need={'calls': 1000, 'undirected': 100, 'not_undirected': 100})


def as_sets(H):
    return {v: set(H[v]) for v in H}


@C49.driver(15, 60, fixed=True)
def utilities_huge(c):
    rng = c.rng
    n, E = gens.huge_undirected(rng, 2500, c.i)
    D = set(E) | {(v, u) for u, v in E}
    k = rng.randrange(4) if c.i % 7 else 3
    if k == 1:
        D.discard(rng.choice(sorted(D)))
    elif k == 3:                            # one way, at the highest degree
        v = collections.Counter(v for e in E for v in e).most_common(1)[0][0]
        e = rng.choice([e for e in sorted(D) if v in e])
        D.discard((e[0], v) if e[1] == v and rng.random() < .8 else e)
        if rng.random() < .5:
            D.add((v, e[0]) if e[1] == v else e)
    elif k == 2:
        v = rng.randrange(n)
        D.add((v, v))
    run_c49(c, n, sorted(D))
    G = {v: set() for v in range(n)}
    for u, v in E:
        G[u].add(v)
        G[v].add(u)
    for _ in range(12):                     # one edge loses a direction
        u, v = rng.choice(E)
        if rng.random() < .5:
            u, v = v, u
        G[u].discard(v)
        c.eq(bool(c.call(graphs.is_undirected, G)), False,
             'one-way edge overlooked in a large graph', n=n, edge=(u, v))
        G[u].add(v)
    c.eq(bool(c.call(graphs.is_undirected, G)), True,
         'large undirected graph refused', n=n)


@C49.driver(1500, 15000)
def utilities(c):
    rng = c.rng
    k = rng.randrange(4)
    x = rng.random()
    n, E = gens.small_undirected(rng, 8) if x < .97 else \
        gens.medium_undirected(rng, 60) if x < .99 else \
        gens.big_undirected(rng)
    if k == 0:
        D = sorted(set(E) | {(v, u) for u, v in E})
    elif k == 1:
        _, D = broken_symmetry(rng, n, E)
    else:
        n, D = gens.small_digraph(rng, 8)
    c.sample((n, D))
    run_c49(c, n, D)


def run_c49(c, n, D):
    rng = c.rng
    g = gens.build(rng, n, D, directed=True)
    G, names = g.graph, g.names
    c.note('graph', G)
    S = set(D)
    und = all(u != v and (v, u) in S for u, v in D)
    c.event('undirected' if und else 'not_undirected')
    c.eq(bool(c.call(graphs.is_undirected, G)), und, 'wrong verdict on a '
         'simple undirected graph', G=G)
    A = g.adj()
    c.eq(c.call(graphs.max_degree, G), max(map(len, A)), 'maximum degree',
         G=G)
    c.eq(c.call(graphs.min_degree, G), min(map(len, A)), 'minimum degree',
         G=G)
    want = as_sets(G)
    for kind in (None, set, list, tuple, frozenset, util.map_to_constant(7)):
        c.guard(G)
        H = c.call(graphs.copy_graph, G, *([] if kind is None else [kind]))
        c.eq(as_sets(H), want, 'copy differs', G=G)
        c.check(H is not G, 'copy is the graph itself')
        for v in H:
            c.eq(len(H[v]), len(G[v]), 'copy differs in size', G=G, H=H)
            if kind in (None, set):
                H[v].clear()
                H[v].add('junk')
            elif kind is list:
                H[v][:] = ['junk']
            elif kind not in (tuple, frozenset):
                c.check(all(x == 7 for x in H[v].values()), 'wrong constant',
                        H=H)
                H[v].clear()
        H.clear()
        c.release()
    sub = {v for v in names if rng.random() < rng.choice([.3, .6, .9])}
    V = rng.choice([set, list, tuple, frozenset])(sub)
    if rng.random() < .3:
        V = type(V)(list(V) + ['foreign'])
    H = c.call(graphs.induced_subgraph, V, G)
    c.eq(as_sets(H), {v: want[v] & sub for v in sub},
         'wrong induced subgraph', G=G, V=V)
    H = c.call(graphs.induced_subgraph, V, G, list)
    c.eq(as_sets(H), {v: want[v] & sub for v in sub},
         'wrong induced subgraph', G=G, V=V)
    ind = not any(want[v] & sub for v in sub)
    c.event('independent' if ind else 'dependent')
    c.eq(bool(c.call(graphs.is_independent_set, V, G)), ind,
         'wrong verdict on an independent set', G=G, V=V)
    # union of graphs over overlapping vertex sets
    parts, total = [], {}
    many = rng.random()
    for _ in range(rng.randint(0, 4) if many < .9 else rng.randint(5, 40)
                   if many < .98 or n > 20 else rng.randint(41, 150)):
        vs = [v for v in names if rng.random() < .6]
        P = {}
        for v in vs:
            P[v] = rng.choice([set, list, tuple, frozenset])(
                w for w in vs if rng.random() < .3) if n < 200 else list(G[v])
            total.setdefault(v, set()).update(P[v])
        parts.append(P)
    U = c.call(graphs.union, *parts)
    c.eq(as_sets(U), total, 'wrong union', parts=parts)
    c.guard(*parts)
    for v in U:
        if isinstance(U[v], set):
            U[v].add('junk')
    c.release()
    c.check(c.call(util.arbitrary_item, G) in G, 'arbitrary item is not an '
            'item')
    c.raises(IndexError, util.arbitrary_item, rng.choice(
        [set(), [], (), {}, '', iter([])]), pure=False)
    c.eq(c.call(util.map_to_constant(rng), list(G)), {v: rng for v in G},
         'map to constant')
    if len(D) >= 3:
        c.nontrivial(g.key())


PROPS = [C09, C10, C11, C12, C13, C49]
