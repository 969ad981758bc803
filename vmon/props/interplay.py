"""C56 generators and functions do not disturb one another."""
import itertools
from ..core import Prop, take
from .. import gens
from pads import bfs, bipartite, dfs, lex_bfs, permutations as pm, \
    eratosthenes as er, integer_partitions as ip, lyndon as ly, \
    graphdegeneracy as deg, biconnectivity as bic, chordal, lcs, \
    cardinality_matching as cm, bipartite_matching as bm, partial_cube as pc, \
    two_satisfiability as sat, partial_order as po, \
    longest_increasing_subsequence as lis, strong_connectivity as sc, \
    halin, graph_examples as ge, minimum_spanning_tree as mst, util, \
    acyclic_reachability as ar, xyz_graph as xyz, graphs as gs, \
    medium as md, read_undirected_graph as rd
from pads.cubic_ham import hamiltonian_cycles
from pads.integerpoints import IntegerPointsByDistance
from pads.repetitivity import NonrepetitiveGraph
from pads.sequence import Sequence
from pads.smawk import ConcaveMinima
from pads.wrap import wrap
from pads.automata import RegExp
from pads.sudoku import Sudoku, all_solutions
from .. import sudoku_model as M


def freeze(x):
    """Comparable copy of a result."""
    if isinstance(x, dict):
        return 'dict', frozenset((freeze(k), freeze(v))
                                 for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return 'seq', tuple(freeze(v) for v in x)
    if isinstance(x, (set, frozenset)):
        return 'set', frozenset(freeze(v) for v in x)
    if isinstance(x, Sudoku):
        return 'grid', tuple(x.contents)
    return x


def plain(rng, n, edges):
    return gens.build(rng, n, edges, plain=True).graph


def graph(rng, maxn=9, connected=False):
    while True:
        g = gens.small_undirected(rng, maxn)
        G = plain(rng, *g)
        if not connected or len(set(dfs.preorder(G, next(iter(G))))) == len(G):
            return G


def digraph(rng, acyclic=False):
    n = rng.randint(1, 8)
    p = rng.random() * .6
    return {i: {j for j in range(n) if i != j and rng.random() < p and
                (i < j or not acyclic)} for i in range(n)}


def cubic(rng):
    while True:
        g = gens.random_cubic(rng, rng.choice([4, 6, 8, 8, 10]))
        if g:
            return plain(rng, *g)


def word(rng, k=2, n=10):
    return [rng.randrange(k) for _ in range(rng.randint(1, n))]


def labelled(rng):
    n = rng.randint(2, 6)
    G = {i: {} for i in range(n)}
    for i in range(n):
        for j in range(i):
            if rng.random() < .6:
                G[i][j] = G[j][i] = sorted(rng.sample('abc',
                                                      rng.randint(1, 2)))
    return G


def generator(rng):
    """(name, function producing a fresh iterator)"""
    k = rng.choice(GENERATORS)
    return k(rng)


def root(G, rng):
    return rng.choice(sorted(G))


GENERATORS = []


def gen(f):
    GENERATORS.append(f)
    return f


def simple(name, fn, make):
    @gen
    def f(rng):
        args = make(rng)
        return name, args, lambda: iter(fn(*args))


simple('levels', bfs.breadth_first_levels, lambda r: (
    lambda G: (G, root(G, r)))(graph(r)))
simple('bipartition', bipartite.bipartition, lambda r: (
    plain(r, *gens.complete_bipartite(r.randint(1, 4), r.randint(1, 4))),))
simple('hamiltonian', hamiltonian_cycles, lambda r: (cubic(r),))
simple('dfs', dfs.search, lambda r: (graph(r),))
simple('preorder', dfs.preorder, lambda r: (digraph(r),))
simple('postorder', dfs.postorder, lambda r: (graph(r),))
simple('primes', er.primes, lambda r: ())
simple('factored', er.factored_integers, lambda r: ())
simple('moebius', er.moebius_sequence, lambda r: ())
simple('practical', er.practical_numbers, lambda r: ())
simple('degeneracy', deg.degeneracySequence, lambda r: (graph(r),))
simple('mckay', ip.mckay, lambda r: (r.randint(0, 9),))
simple('revlex', ip.revlex_partitions, lambda r: (r.randint(0, 9),))
simple('lex', ip.lex_partitions, lambda r: (r.randint(0, 9),))
simple('binary', ip.binary_partitions, lambda r: (r.randint(0, 14),))
simple('fixed', ip.fixed_length_partitions, lambda r: (
    r.randint(1, 12), r.randint(1, 5)))
simple('points', lambda: (x * x + y * y for x, y in IntegerPointsByDistance()),
       lambda r: ())
simple('lexbfs', lex_bfs.lex_bfs, lambda r: (graph(r),))
simple('lyndon', ly.LengthLimitedLyndonWords, lambda r: (
    r.randint(1, 3), r.randint(1, 6)))
simple('lyndon length', ly.LyndonWordsWithLength, lambda r: (
    r.randint(2, 3), r.randint(1, 6)))
simple('lyndon all', ly.LyndonWords, lambda r: (r.randint(2, 3),))
simple('breakpoints', ly.ChenFoxLyndonBreakpoints, lambda r: (word(r),))
simple('factors', ly.ChenFoxLyndon, lambda r: (word(r),))
simple('changes', pm.PlainChanges, lambda r: (r.randint(1, 6),))
simple('johnson', pm.SteinhausJohnsonTrotter, lambda r: (r.randint(1, 5),))
simple('johnson list', pm.SteinhausJohnsonTrotter, lambda r: (
    list('abcdef')[:r.randint(1, 5)],))
simple('double', pm.DoublePlainChanges, lambda r: (r.randint(1, 4),))
simple('double johnson', pm.DoubleSteinhausJohnsonTrotter, lambda r: (
    r.randint(1, 4),))
simple('stirling changes', pm.StirlingChanges, lambda r: (r.randint(1, 4),))
simple('stirling', pm.StirlingPermutations, lambda r: (r.randint(1, 4),))
simple('involution changes', pm.InvolutionChanges, lambda r: (
    r.randint(1, 6),))
simple('involutions', pm.Involutions, lambda r: (r.randint(1, 6),))
simple('paths', po.TracePaths, lambda r: (
    lambda G: ({v: set(list(G[v])[:1]) for v in G},))(digraph(r, True)))
simple('match partitions', xyz.CubicMatchPartitions, lambda r: (
    plain(r, *gens.relabel(r, r.choice([
        gens.complete(4), gens.prism(r.randint(3, 5)), gens.petersen(),
        gens.moebius(r.randint(3, 5))]))),))
simple('sequence', lambda s: iter(Sequence(s)), lambda r: (
    r.sample(range(99), 8),))


@gen
def cyclic_edges(rng):
    G = labelled(rng)
    N = NonrepetitiveGraph(G)
    return 'cyclic', G, lambda: iter(N.cyclic())


@gen
def reachable_ends(rng):
    G = labelled(rng)
    N = NonrepetitiveGraph(G)
    v = rng.choice(sorted(G))
    return 'reachable', (G, v), lambda: iter(N.reachable(v, 'a'))


@gen
def sudoku_solutions(rng):
    C = M.corpus()
    u, p = rng.choice(C['stuck'])
    p = M.shuffled(rng, p)
    for x in rng.sample([x for x in range(81) if p[x]], 2):
        p[x] = 0
    return 'sudoku', p, lambda: iter(all_solutions(Sudoku(p)))


C56 = Prop(
    'C56', 'Pairs and triples of the library\'s generators advanced in a '
    'random order, some abandoned half way, compared with running each '
    'alone; functions called twice on the same argument, the first result '
    'being emptied in between, with other calls interleaved.  Non-trivial: '
    'at least two interleaved generators produced three items or more.',
    ['pads/permutations.py', 'pads/eratosthenes.py', 'pads/dfs.py',
     'pads/lyndon.py', 'pads/integer_partitions.py', 'pads/cubic_ham.py',
     'pads/lex_bfs.py', 'pads/bfs.py'],
    need={'interleavings': 100, 'repeated': 100})


@C56.driver(700)
def interleaved(c):
    rng = c.rng
    n = rng.randint(2, 4)
    limit = rng.choice([10, 30, 80])
    gs = [generator(rng) for _ in range(n)]
    if rng.random() < .4:
        gs[1] = gs[0]               # the same arguments twice
    names = [g[0] for g in gs]
    c.note('generators', [(g[0], g[1]) for g in gs])
    for g in gs:
        c.guard(g[1])
    alone = []
    for name, args, make in gs:
        alone.append(take(map(freeze, c.call(make)), limit))
    its = [c.call(make) for name, args, make in gs]
    got = [[] for _ in gs]
    live = list(range(n))
    drop = rng.randrange(n) if rng.random() < .3 else None
    while live:
        k = rng.choice(live)
        for _ in range(rng.choice([1, 1, 2, 5])):
            if len(got[k]) >= limit:
                live.remove(k)
                break
            try:
                got[k].append(freeze(next(its[k])))
            except StopIteration:
                live.remove(k)
                break
            except Exception as e:
                c.fail('%s while interleaved' % type(e).__name__,
                       error=str(e), names=names)
            if k == drop and len(got[k]) >= 2:
                live.remove(k)
                close = getattr(its[k], 'close', None)
                if close:
                    close()
                break
    for k in range(n):
        want = alone[k][:len(got[k])] if k == drop else alone[k]
        c.eq(got[k], want, 'interleaving changed a result', name=names[k],
             names=names)
    again = take(map(freeze, gs[0][2]()), limit)
    c.eq(again, alone[0], 'second run differs', name=names[0])
    c.event('interleavings')
    if sum(len(x) >= 3 for x in got) >= 2:
        c.nontrivial(repr([(g[0], g[1]) for g in gs]))


def instance(rng):
    from pads._not import Not
    vs = 'xyzw'

    def lit():
        v = rng.choice(vs)
        return Not(v) if rng.random() < .5 else v
    T = {v: [] for v in vs}
    for _ in range(rng.randint(0, 5)):
        T.setdefault(lit(), []).append(lit())
    return T


FUNCTIONS = [
    ('matching', cm.matching, lambda r: (graph(r),)),
    ('greedy', cm.greedy_matching, lambda r: (graph(r),)),
    ('bipartite', bm.matching, lambda r: ({i: [j for j in 'abcde'
                                               if r.random() < .5]
                                           for i in range(5)},)),
    ('imperfections', bm.imperfections, lambda r: (
        {i: sorted({str(i), r.choice('01234')}) for i in range(5)},)),
    ('topological', po.TopologicalOrder, lambda r: (digraph(r, True),)),
    ('closure', po.TransitiveClosure, lambda r: (digraph(r, True),)),
    ('lcs', lcs.longest_common_subsequence, lambda r: (word(r), word(r))),
    ('lis', lis.longest_increasing_subsequence, lambda r: (word(r, 9),)),
    ('spanning', mst.MinimumSpanningTree, lambda r: (
        lambda G: ({v: {w: v * w for w in G[v]} for v in G},))(graph(r))),
    ('degeneracy', deg.degeneracy, lambda r: (graph(r),)),
    ('coreness', deg.core, lambda r: (graph(r),)),
    ('triangles', deg.triangles, lambda r: (graph(r),)),
    ('wrap', wrap, lambda r: (' '.join('x' * r.randint(1, 9)
                                       for _ in range(20)),)),
    ('satisfiable', sat.Satisfiable, lambda r: (instance(r),)),
    ('chordal', chordal.is_chordal, lambda r: (graph(r),)),
    ('perfect', chordal.perfect_elimination_ordering, lambda r: (
        plain(r, *gens.random_tree(r, 6)),)),
    ('odd core', bipartite.odd_core, lambda r: (
        plain(r, *gens.cycle(5)),)),
    ('bipartite test', bipartite.is_bipartite, lambda r: (graph(r),)),
    ('two colouring', bipartite.two_color, lambda r: (
        plain(r, *gens.complete_bipartite(3, 4)),)),
    ('biconnected', bic.is_biconnected, lambda r: (graph(r, 9, True),)),
    ('orientation', deg.degeneracyOrientation, lambda r: (graph(r),)),
    ('minimum paths', po.MinimumPathDecomposition, lambda r: (
        digraph(r, True),)),
    ('minimum chains', po.MinimumChainDecomposition, lambda r: (
        po.TransitiveClosure(digraph(r, True)),)),
    ('antichain', po.MaximumAntichain, lambda r: (
        po.TransitiveClosure(digraph(r, True)),)),
    ('partial cube', pc.PartialCubeLabeling, lambda r: (
        plain(r, *gens.hypercube(r.randint(1, 3))),)),
    ('edge labels', pc.PartialCubeEdgeLabeling, lambda r: (
        plain(r, *gens.grid(2, r.randint(1, 4))),)),
    ('wheel', halin.is_wheel, lambda r: (
        plain(r, *gens.wheel(r.randint(3, 7))),)),
    ('halin', halin.halin_leaf_vertices, lambda r: (
        plain(r, *gens.wheel(r.randint(4, 7))),)),
    ('petersen', ge.GeneralizedPetersenGraph, lambda r: (
        r.randint(5, 9), r.randint(1, 2))),
    ('coxeter', ge.GeneralizedCoxeterGraph, lambda r: (
        r.randint(5, 9), r.randint(1, 2), r.randint(1, 2))),
    ('cube', ge.CubeConnectedCycles, lambda r: (r.randint(3, 4),)),
    ('code', ge.LCFNotation, lambda r: r.choice([
        ([5, -5], 7), ([3, -3], 4), ([5, -9, 7, -7, 9, -5], 4)])),
    ('conjugate', ip.conjugate, lambda r: (
        sorted(word(r, 5, 6), reverse=True) if r.random() < .6 else [],)),
    ('de bruijn', ly.DeBruijnSequence, lambda r: (
        r.randint(1, 3), r.randint(1, 4))),
    ('smallest rotation', ly.SmallestRotation, lambda r: (word(r),)),
    ('smallest suffix', ly.SmallestSuffix, lambda r: (word(r),)),
    ('copy', gs.copy_graph, lambda r: (graph(r) if r.random() < .8 else {},)),
    ('union', gs.union, lambda r: [graph(r) for _ in range(r.randint(1, 3))]),
    ('induced', gs.induced_subgraph, lambda r: (
        lambda G: (set(r.sample(sorted(G), r.randint(0, len(G)))), G))(
            graph(r))),
    ('partition', bipartite.bipartition, lambda r: (
        plain(r, *gens.complete_bipartite(2, 3)),)),
    ('states', lambda G: md.StateTransitionGraph(
        pc.MediumForPartialCube(G)), lambda r: (plain(r, *gens.grid(2, 3)),)),
    ('routes', lambda G: md.RoutingTable(pc.MediumForPartialCube(G)),
     lambda r: (plain(r, *gens.grid(1, r.randint(2, 4))),)),
    ('forced', sat.Forced, lambda r: (instance(r),)),
    ('read', rd.readUndirectedGraph, lambda r: (r.choice([
        'C~', ':Cc', ['a b', 'b c'], ['1', '2', '#', '1 0 1 2'], [],
        'a b\nb c\n']),)),
    ('reach', lambda G: [ar.Reachability(G).reachable(u, v)
                         for u in sorted(G) for v in sorted(G)],
     lambda r: (digraph(r, True),)),
    ('regular', lambda s, W: [RegExp(s)(w) for w in W], lambda r: (
        r.choice(['(a+b)*a', 'ab*', '(aa)*b']), [''.join(
            r.choice('ab') for _ in range(r.randint(0, 6)))
            for _ in range(5)])),
    ('minima', lambda M: ConcaveMinima(
        range(4), range(4), lambda i, j: M[i] + (i - j) ** 2), lambda r: (
        word(r, 5, 4) + [0] * 4,)),
    ('components', lambda G: {frozenset(k) for k in
                              sc.StronglyConnectedComponents(G)},
     lambda r: (digraph(r),)),
    ('condensation', sc.Condensation, lambda r: (digraph(r),)),
]


@C56.driver(300)
def twice(c):
    rng = c.rng
    table = [t for t in FUNCTIONS if t[1] is not None]
    name, fn, make = rng.choice(table)
    args = make(rng)
    c.note('function', name, args)
    first = c.call(fn, *args)
    if hasattr(first, '__next__'):
        first = take(map(freeze, first), 10 ** 6)
    want = freeze(first)
    spoil(first)
    for _ in range(rng.randint(0, 3)):
        other, f2, make2 = rng.choice(table)
        try:
            r = f2(*make2(rng))
            if hasattr(r, '__next__'):
                take(r, 3)
        except Exception:
            pass                        # judged by its own property
    again = c.call(fn, *args)
    if hasattr(again, '__next__'):
        again = take(map(freeze, again), 10 ** 6)
    c.eq(freeze(again), want, 'second call differs', name=name, args=args)
    c.event('repeated')


def spoil(x):
    """Modify a result the caller owns."""
    try:
        if isinstance(x, dict):
            for v in list(x.values()):
                spoil(v)
            x.clear()
        elif isinstance(x, list):
            for v in x:
                spoil(v)
            x.append('junk')
        elif isinstance(x, set):
            x.clear()
        elif isinstance(x, tuple):
            for v in x:
                spoil(v)
    except TypeError:
        pass


PROPS = [C56]
