"""C14 bucket queue, C15 integer heaps, C16 union-find, C17 spanning trees,
C18 sequences, C19 ordered sequences, C20 partition refinement,
C21 sorted sets: operation histories checked against reference models."""
import itertools
from fractions import Fraction
from ..core import Prop
from .. import gens
from pads.bucketqueue import BucketQueue
from pads import integer_heap as ih
from pads.union_find import UnionFind
from pads.minimum_spanning_tree import MinimumSpanningTree
from pads.sequence import Sequence, SequenceError
from pads.ordered_sequence import (SimpleOrderedSequence,
                                   LogarithmicOrderedSequence)
from pads.partition_refinement import PartitionRefinement, PartitionError
from pads.sorted_set import SortedSet

# ---------------------------------------------------------------------------
C14 = Prop(
    'C14',
    rule='histories of insertions, priority changes, deletions, lookups and '
         'interleaved extraction (the queue modified between extractions) '
         'against a dict model; non-trivial: at least 2 extractions with '
         'modifications between them',
    anchors=['pads/bucketqueue.py'],
    need={'ops': 5000, 'extracted': 1000, 'modified_while_iterating': 300,
          'bad_priority': 30})


@C14.driver(500, 6000)
def bucket_history(c):
    rng = c.rng
    big = rng.random() < .01
    items = gens.labels(rng, rng.randint(50, 200) if big else
                        rng.randint(1, 12))
    spread = rng.choice([1, 3, 10, 300] if rng.random() < .96 else [4000])
    base = rng.choice([0, 0, -5, 1000, -3000, 2 ** 53, 10 ** 40, -2 ** 63])
    Q = c.call(BucketQueue)
    model = {}
    its = []
    log = []
    changed = extracted = 0

    def prio():
        return base + rng.randint(-spread, spread)

    def same():
        c.eq(len(Q), len(model), 'wrong length', log=log)
        for x in items:
            c.eq(x in Q, x in model, 'wrong membership', item=x, log=log)
            if x in model:
                c.eq(Q[x], model[x], 'wrong priority', item=x, log=log)

    for step in range(rng.randint(200, 500) if big else rng.randint(5, 60)):
        c.event('ops')
        r = rng.random()
        x = rng.choice(items)
        if r < .45:
            p = prio()
            if x in model and rng.random() < .4:
                p = model[x] + rng.choice([-1, 0, 1])
            log.append(('set', x, p))
            Q[gens.copy_label(x)] = p
            model[x] = p
            changed += 1
        elif r < .55 and x in model:
            log.append(('del', x))
            del Q[x]
            del model[x]
            changed += 1
        elif r < .58:
            log.append(('bad', x))
            c.event('bad_priority')
            c.raises(TypeError, Q.__setitem__, x, rng.choice(
                [1.5, '1', None, (1,)]))
        elif r < .62 and x not in model:
            c.raises(KeyError, Q.__getitem__, x)
            c.raises(KeyError, Q.__delitem__, x)
        else:
            if not its or rng.random() < .2:
                pairs = rng.random() < .5
                its.append((iter(Q.items()) if pairs else iter(Q), pairs))
            k = rng.randrange(len(its))
            it, pairs = its[k]
            log.append(('next', k))
            try:
                got = next(it)
            except StopIteration:
                c.check(not model, 'iteration ended early', log=log,
                        model=model)
                del its[k]
                same()
                continue
            c.check(model, 'extraction from an empty queue', log=log,
                    got=got)
            y = got[0] if pairs else got
            c.check(y in model, 'extracted item is not queued', got=got,
                    log=log)
            c.eq(model[y], min(model.values()), 'extracted item does not '
                 'have minimum priority', got=got, log=log)
            if pairs:
                c.eq(got[1], model[y], 'wrong priority reported', got=got,
                     log=log)
            del model[y]
            extracted += 1
            c.event('extracted')
            if changed:
                c.event('modified_while_iterating')
            changed = 0
        same()
    c.sample(log)
    rest = list(Q.items())
    c.eq(len(rest), len(model), 'drain misses items', log=log)
    c.eq([p for _, p in rest], sorted(model.values()),
         'drain is not in priority order', log=log, rest=rest)
    for x, p in rest:
        c.eq(p, model.pop(x, None), 'drain reports wrong item', log=log)
    c.eq(len(Q), 0, 'drained queue is not empty')
    if extracted >= 2:
        c.nontrivial(repr(log))


# ---------------------------------------------------------------------------
C15 = Prop(
    'C15',
    rule='histories of add, remove, min and emptiness tests on every heap '
         'kind against a set model, with clustered, extreme and word-boundary '
         'keys, re-adding and removing absent keys; non-trivial: minimum '
         'changed at least 3 times by removal',
    anchors=['pads/integer_heap.py'],
    need={'ops': 5000, 'min_removed': 1000, 'absent_removed': 200,
          'out_of_range': 50, 'empty_min': 100})

HEAPS = [('bitvector', None)] + [('flat', i) for i in range(1, 8)] + \
    [('linear', None)] + [('integer', i) for i in range(0, 8)]


@C15.driver(680, 8500)
def heap_history(c):
    rng = c.rng
    kind, i = HEAPS[c.i % len(HEAPS)]
    if kind == 'bitvector':
        Q, top = c.call(ih.BitVectorHeap), rng.choice([8, 70, 400])
    elif kind == 'linear':
        Q, top = c.call(ih.LinearHeap), rng.choice([8, 10 ** 9])
    else:
        Q = c.call(ih.FlatHeap if kind == 'flat' else ih.IntegerHeap, i)
        top = 1 << (1 << i)
    half = max(1, int(top ** .5))

    def key():
        r = rng.random()
        if r < .2:
            return rng.randrange(min(top, 6))
        if r < .35:
            return top - 1 - rng.randrange(min(top, 4))
        if r < .5 and model:
            return rng.choice(sorted(model))
        if r < .65 and model:
            x = rng.choice(sorted(model)) + rng.choice([-1, 1, half, -half])
            return min(max(x, 0), top - 1)
        if r < .8:
            return min(top - 1, half * rng.randrange(half + 1) +
                       rng.randint(0, 1))
        return rng.randrange(top)

    model = set()
    log = [(kind, i)]
    c.note('log', log)
    changes = 0
    grow = rng.choice([.3, .5, .6])
    for step in range(rng.randint(10, 80)):
        c.event('ops')
        r = rng.random()
        if r < grow:
            x = key()
            log.append(('add', x))
            c.call(Q.add, x)
            model.add(x)
        elif r < .85 and model:
            x = min(model) if rng.random() < .6 else rng.choice(
                sorted(model))
            if x == min(model):
                c.event('min_removed')
                changes += 1
            log.append(('remove', x))
            c.call(Q.remove, x)
            model.discard(x)
        elif r < .95 and kind != 'linear':
            x = key()
            if x not in model:
                c.event('absent_removed')
            log.append(('remove', x))
            c.call(Q.remove, x)
            model.discard(x)
        elif kind == 'flat' or (kind == 'integer' and i > 3):
            bad = rng.choice([-1, top, top + 1, -top])
            c.event('out_of_range')
            c.raises(ValueError, Q.add, bad)
            c.raises(ValueError, Q.remove, bad)
        c.eq(bool(Q), bool(model), 'wrong emptiness', log=log)
        if model:
            c.eq(Q.min(), min(model), 'wrong minimum', log=log)
        else:
            c.event('empty_min')
            c.raises(ValueError, Q.min)
    out = []
    while model:
        c.check(Q, 'heap lost values', log=log, model=model)
        x = c.call(Q.min)
        c.eq(x, min(model), 'drain out of order', log=log)
        c.call(Q.remove, x)
        model.discard(x)
        out.append(x)
    c.check(not Q, 'drained heap is not empty', log=log)
    c.sample(log)
    if changes >= 3:
        c.nontrivial(repr(log))


@C15.driver(12, 60)
def heap_bulk(c):
    """Many keys: heap sort."""
    rng = c.rng
    i = rng.choice([4, 5, 6, 7])
    top = 1 << (1 << i)
    Q = c.call(rng.choice([ih.FlatHeap, ih.IntegerHeap]), i)
    S = {rng.randrange(top) for _ in range(rng.choice([1500, 1500, 9000]))}
    S |= {rng.randrange(300) for _ in range(300) if top > 300}
    L = list(S)
    rng.shuffle(L)
    for x in L:
        Q.add(x)
    out = []
    while Q:
        x = Q.min()
        out.append(x)
        Q.remove(x)
        if len(out) > len(L):
            break
    c.eq(out, sorted(L), 'heap sort differs')
    c.event('min_removed', len(out))


# ---------------------------------------------------------------------------
C16 = Prop(
    'C16',
    rule='histories of find and multi-way union over hashable items of every '
         'kind against an explicit partition model, with name stability '
         'watched across the whole history; non-trivial: at least 3 merging '
         'unions, one of them of sets with two or more members',
    anchors=['pads/union_find.py'],
    need={'ops': 5000, 'merges': 1000, 'noop_unions': 100})


@C16.driver(700, 9000)
def union_history(c):
    rng = c.rng
    items = gens.labels(rng, rng.randint(1, 14))
    X = c.call(UnionFind)
    group = {}              # item -> shared set
    name = {}               # id of group -> last seen name
    log = []
    c.note('log', log)
    big = merges = 0
    for step in range(rng.randint(3, 40)):
        c.event('ops')
        if rng.random() < .35:
            x = rng.choice(items)
            log.append(('find', x))
            group.setdefault(x, {x})
            X[gens.copy_label(x)]
        else:
            k = rng.choice([1, 2, 2, 2, 3, 4, 6])
            xs = [rng.choice(items) for _ in range(k)]
            log.append(('union', xs))
            for x in xs:
                group.setdefault(x, {x})
            c.call(X.union, *[gens.copy_label(x) for x in xs])
            gs = []
            for x in xs:
                if not any(group[x] is h for h in gs):
                    gs.append(group[x])
            if len(gs) > 1:
                merges += 1
                c.event('merges')
                if min(map(len, gs)) > 1:
                    big += 1
                new = set().union(*gs)
                for h in gs:
                    name.pop(id(h), None)
                for x in new:
                    group[x] = new
            else:
                c.event('noop_unions')
        c.eq(set(X), set(group), 'wrong items', log=log)
        c.eq(len(list(X)), len(group), 'item repeated', log=log)
        order = list(group)
        rng.shuffle(order)
        for x in order:
            n = X[x]
            g = group[x]
            c.check(n in g, 'set named by a non-member', item=x, name=n,
                    log=log)
            if id(g) in name:
                c.check(name[id(g)] == n, 'name of an unchanged set '
                        'changed, or differs between its members', item=x,
                        name=n, before=name[id(g)], log=log)
            name[id(g)] = n
        c.eq(set(X), set(group), 'find changed the items', log=log)
    c.sample(log)
    if merges >= 3 and big:
        c.nontrivial(repr(log))


@C16.driver(6, 40)
def union_long(c):
    """Large structures: chains of unions in unfavourable orders."""
    rng = c.rng
    n = 3000
    X = UnionFind()
    mode = c.i % 3
    if mode == 0:
        for i in range(n - 1):
            X.union(i, i + 1)
    elif mode == 1:
        for i in range(n - 1, 0, -1):
            X.union(i - 1, i)
    else:
        step = 1
        while step < n:
            for i in range(0, n - step, 2 * step):
                X.union(i, i + step)
            step *= 2
    r = X[rng.randrange(n)]
    for i in range(n):
        c.eq(X[i], r, 'items of one set have different names', i=i)
    c.event('merges', n - 1)
    Y = UnionFind()
    c.call(Y.union, *range(n))
    c.eq(len({Y[i] for i in range(n)}), 1, 'wide union left several sets')


# ---------------------------------------------------------------------------
C17 = Prop(
    'C17',
    rule='weighted undirected graphs (ties, negative, rational and '
         'incomparable vertices, disconnected) whose tree is checked to be a '
         'spanning forest of the weight found by another algorithm; '
         'non-trivial: at least one cycle among the edges',
    anchors=['pads/minimum_spanning_tree.py', 'pads/union_find.py'],
    need={'calls': 500, 'asymmetric': 50, 'disconnected': 50})


def prim_weight(n, W):
    """Weight and number of edges of a minimum spanning forest."""
    nb = [{} for _ in range(n)]
    for (u, v), w in W.items():
        nb[u][v] = nb[v][u] = w
    left = set(range(n))
    total, count = 0, 0
    while left:
        new = left.pop()
        reach = {}                  # cheapest edge to each vertex outside
        while True:
            for v, w in nb[new].items():
                if v in left and (v not in reach or w < reach[v]):
                    reach[v] = w
            if not reach:
                break
            new = min(reach, key=reach.get)
            total += reach.pop(new)
            count += 1
            left.discard(new)
    return total, count


def weights(rng, E):
    k = rng.randrange(8)
    if k == 6:                          # beyond the precision of floats
        return {e: 2 ** 70 + rng.randint(-9, 9) for e in E}
    if k == 7:
        return {e: Fraction(1, 3) + Fraction(rng.randint(-9, 9), 10 ** 30)
                for e in E}
    if k == 0:
        return {e: 1 for e in E}
    if k == 1:
        return {e: rng.randint(0, 3) for e in E}
    if k == 2:
        return {e: rng.randint(-50, 50) for e in E}
    if k == 3:
        return {e: Fraction(rng.randint(-9, 9), rng.randint(1, 5))
                for e in E}
    if k == 4:
        p = list(range(len(E)))
        rng.shuffle(p)
        return dict(zip(E, p))
    return {e: rng.randint(0, 64) / 8 for e in E}


def run_c17(c, idx):
    rng = c.rng
    n, E = idx
    W = weights(rng, [(min(e), max(e)) for e in E])
    g = gens.build(rng, n, E, adj='dict')
    names, index = g.names, g.index
    G = {v: {w: W[min(index[v], index[w]), max(index[v], index[w])]
             for w in g.graph[v]} for v in g.graph}
    c.note('graph', G)
    T = [tuple(e) for e in c.call(MinimumSpanningTree, G)]
    total, count = prim_weight(n, W)
    c.eq(len(T), count, 'wrong number of tree edges', G=G, T=T)
    if count < n - 1:
        c.event('disconnected')
    rep = list(range(n))

    def find(i):
        while rep[i] != i:
            i = rep[i]
        return i
    for u, v in T:
        c.check(u in G and v in G[u], 'tree edge is not an edge', G=G, T=T)
        a, b = find(index[u]), find(index[v])
        c.check(a != b, 'tree has a cycle', G=G, T=T)
        rep[a] = b
    c.eq(sum(G[u][v] for u, v in T), total, 'tree is not minimum', G=G, T=T)
    if len(E) > count:
        c.nontrivial(g.key(), sorted(W.items()))
    # unusable inputs
    if E and rng.random() < .4:
        c.event('asymmetric')
        u, v = rng.choice(E)
        if rng.random() < .5:
            w = G[names[u]][names[v]]
            delta = rng.choice([-1, 1, 1, abs(w) * 2 ** -40, 1e-9,
                                Fraction(1, 10 ** 15)])
            if w + delta == w or isinstance(w, float) and \
                    isinstance(delta, Fraction):
                delta = rng.choice([-1, 1])
            G[names[u]][names[v]] = w + delta
            if w + delta == w:
                G[names[u]][names[v]] = 0 if w else 1
        else:
            del G[names[u]][names[v]]
        c.raises(ValueError, MinimumSpanningTree, G)


@C17.driver(700, 9000)
def mst_small(c):
    idx = gens.small_undirected(c.rng, 9)
    c.sample(idx)
    run_c17(c, idx)


@C17.driver(60, 800)
def mst_medium(c):
    run_c17(c, gens.medium_undirected(c.rng, 40))


@C17.driver(4, 24, fixed=True)
def mst_hubs(c):
    """Vertices with hundreds of neighbours."""
    rng = c.rng
    n = rng.randint(80, 130)
    if c.i % 2:
        idx = gens.gnp(rng, n, rng.choice([.9, 1]))
    else:
        n *= 4
        idx = n, sorted({(h, v) for h in range(rng.randint(1, 3))
                         for v in range(3, n)} |
                        {(0, 1), (0, 2), (1, 2)})
    run_c17(c, gens.relabel(rng, idx))
    # all pairs adjacent; a known cheap tree; then one weight differs
    n = rng.randint(140, 200)
    tree = gens.relabel(rng, gens.random_tree(rng, n))[1]
    G = {u: {} for u in rng.sample(range(n), n)}
    for u in G:
        for v in rng.sample(range(n), n):
            if u != v:
                G[u][v] = 10 + u + v
    for u, v in tree:
        G[u][v] = G[v][u] = rng.random()
    T = list(c.call(MinimumSpanningTree, G))
    c.eq({frozenset(e) for e in T}, {frozenset(e) for e in tree},
         'wrong tree of a large complete graph')
    for _ in range(8):
        u, v = rng.sample(range(n), 2)
        if rng.random() < .7:           # late neighbours of each other
            u, v = rng.sample(list(G)[-20:], 2)
            w = G[u].pop(v), G[v].pop(u)
            G[u][v], G[v][u] = w
        w = G[u][v]
        G[u][v] = w + rng.choice([1, .5, 2 ** -20])
        c.raises(ValueError, MinimumSpanningTree, G)
        G[u][v] = w


@C17.driver(2, 16)
def mst_large(c):
    rng = c.rng
    n = rng.randint(150, 300)
    run_c17(c, gens.relabel(rng, rng.choice([
        lambda: gens.huge_undirected(rng, 1200),
        lambda: gens.random_tree(rng, n),
        lambda: gens.cycle(n),
        lambda: gens.gnp(rng, n, .03),
        lambda: gens.grid(rng.randint(2, 15), rng.randint(10, 20))])()))


# ---------------------------------------------------------------------------
# sequences

class UnhashableKeyed:
    """Unhashable, incomparable items addressed through a key."""
    __hash__ = None

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return '<k%d>' % self.k


def by_k(x):
    return x.k


def by_first(x):
    return x[0]


def seq_items(rng, n):
    """Items and the key function they need (or None)."""
    k = rng.randrange(8)
    if k == 0:
        return [[i] for i in range(n)], id
    if k == 6:
        return [rng.choice([list, set, dict])() for i in range(n)], id
    if k == 7:
        return gens.labels(rng, n), lambda x: ('key', x)
    if k == 1:
        return [UnhashableKeyed(i) for i in range(n)], by_k
    if k == 2:
        return [set([i % 2]) for i in range(n)], id
    if k == 3:
        return [(i, 'x' * i) for i in range(n)], by_first
    return gens.labels(rng, n), None


def check_seq(c, S, model, log, key, full=True):
    """Compare everything observable with the model list."""
    c.eq(len(S), len(model), 'wrong length', log=log)
    got = []
    for x in S:
        got.append(x)
        if len(got) > len(model):
            break
    c.check(len(got) == len(model) and all(
        a is b or a == b for a, b in zip(got, model)), 'wrong contents',
        got=got, want=model, log=log)
    if key is not None:
        c.check(all(a is b for a, b in zip(got, model)),
                'items were replaced by other objects', log=log)
    c.eq(bool(S), bool(model), 'wrong truth value', log=log)
    if not full:
        return
    n = len(model)
    for i, x in enumerate(model):
        y = S[i]
        c.check(y is x or y == x, 'wrong item at index', i=i, log=log,
                got=y)
        z = twin(x, key) or x
        p, s = S.predecessor(z), S.successor(z)
        c.check(p is model[i - 1] or p == model[i - 1],
                'wrong predecessor', item=x, log=log, got=p)
        t = model[(i + 1) % n]
        c.check(s is t or s == t, 'wrong successor', item=x, log=log, got=s)
    c.raises(IndexError, S.__getitem__, n)
    c.raises(IndexError, S.__getitem__, n + 3)
    for i in (-1, -n, -n - 1):
        c.raises(IndexError, S.__getitem__, i or -1)
    c.eq(repr(S), 'Sequence([' + ','.join(map(repr, model)) + '])',
         'wrong printed form', log=log)


def twin(x, key):
    """Another item with the same key, or None."""
    if key is by_k:
        return UnhashableKeyed(x.k)
    if key is by_first:
        return x[0], 'twin'
    return None


def seq_history(c, cls, steps, ordered):
    rng = c.rng
    pool, key = seq_items(rng, rng.randint(1, 14) if steps < 100 else 60)
    kw = {} if key is None else {'key': key}
    out = list(range(len(pool)))
    rng.shuffle(out)
    k = rng.randrange(len(pool) + 1)
    model = [pool[i] for i in out[:k]]
    spare = [pool[i] for i in out[k:]]
    log = [('init', list(model))]
    c.note('log', log)
    arg = rng.choice([list, tuple, iter])(model)
    if k or rng.random() < .5:
        S = c.call(cls, arg, pure=False, **kw)
    else:
        S = c.call(cls, **kw)
    style = rng.randrange(4)

    def where():
        if style == 0 and model:
            return 0
        if style == 1 and model:
            return len(model) - 1
        if style == 2 and model:
            return len(model) // 2
        return rng.randrange(len(model))

    check_seq(c, S, model, log, key)
    for step in range(steps):
        c.event('ops')
        r = rng.random()
        if r < .2 and spare:
            x = spare.pop(rng.randrange(len(spare)))
            log.append(('append', x))
            c.call(S.append, x, pure=False)
            model.append(x)
        elif r < .45 and spare and model:
            x = spare.pop(rng.randrange(len(spare)))
            i = where()
            log.append(('insertAfter', model[i], x))
            c.call(S.insertAfter, model[i], x, pure=False)
            model.insert(i + 1, x)
        elif r < .7 and spare and model:
            x = spare.pop(rng.randrange(len(spare)))
            i = where()
            log.append(('insertBefore', model[i], x))
            c.call(S.insertBefore, model[i], x, pure=False)
            model.insert(i, x)
        elif r < .88 and model:
            i = where() if rng.random() < .5 else rng.randrange(len(model))
            x = model.pop(i)
            y = twin(x, key)
            if y is None or rng.random() < .5:
                y = x
            log.append(('remove', y))
            c.call(S.remove, y, pure=False)
            spare.append(y)
            c.event('removed')
        elif r < .94 and model:
            x, y = rng.choice(model), rng.choice(model)
            op = rng.randrange(3)
            if rng.random() < .5:
                x = twin(x, key) or x
                y = twin(y, key) or y
            log.append(('duplicate', op, x, y))
            c.event('duplicates')
            if op == 0:
                c.raises(SequenceError, S.append, x, pure=False)
            elif op == 1:
                c.raises(SequenceError, S.insertAfter, x, y, pure=False)
            else:
                c.raises(SequenceError, S.insertBefore, x, y, pure=False)
        elif spare:
            x = rng.choice(spare)
            log.append(('absent', x))
            c.raises(Exception, S.remove, x, pure=False)
            c.raises(Exception, S.successor, x, pure=False)
            c.raises(Exception, S.predecessor, x, pure=False)
            y = rng.choice(spare)
            c.raises(Exception, rng.choice([S.insertAfter, S.insertBefore]),
                     x, y, pure=False)
        check_seq(c, S, model, log, key)
        if ordered:
            n = len(model)
            pairs = [(i, j) for i in range(n) for j in range(n)]
            if len(pairs) > 40:
                pairs = rng.sample(pairs, 40)
            for i, j in pairs:
                r = S.cmp(model[i], model[j])
                c.event('comparisons')
                c.check((r > 0) - (r < 0) == (i > j) - (i < j),
                        'wrong position comparison', got=r, i=i, j=j,
                        log=log)
    c.sample(log)
    c.nontrivial(repr([(op[0],) for op in log]), len(pool))


C18 = Prop(
    'C18',
    rule='histories of append, insert, remove, indexing and neighbour '
         'queries (hashable items, and unhashable items addressed by key) '
         'against a list model, including refused operations; non-trivial: '
         'distinct operation histories',
    anchors=['pads/sequence.py'],
    need={'ops': 5000, 'removed': 500, 'duplicates': 100})


@C18.driver(500, 7000)
def sequence_history(c):
    seq_history(c, Sequence, c.rng.randint(4, 40) if c.rng.random() < .99
                else c.rng.randint(100, 250), False)


@C18.driver(6, 40, fixed=True)
def sequence_long(c):
    """Long sequences, edited here and there."""
    long_sequence(c, Sequence)


def long_sequence(c, cls):
    rng = c.rng
    n = rng.randint(600, 3000)
    keyed = rng.random() < .3
    items = [[i] for i in range(n)] if keyed else list(range(n))
    rng.shuffle(items)
    k = rng.choice([0, n // 2, n])
    kw = {'key': by_first} if keyed else {}
    S = c.call(cls, items[:k], **kw)
    model = items[:k]
    for x in items[k:]:
        if not model or rng.random() < .3:
            S.append(x)
            model.append(x)
            continue
        i = rng.randrange(len(model))
        if rng.random() < .5:
            S.insertAfter(model[i], x)
            model.insert(i + 1, x)
        else:
            S.insertBefore(model[i], x)
            model.insert(i, x)
        c.event('ops')
    for _ in range(rng.choice([0, 5, n // 3])):
        S.remove(model.pop(rng.randrange(len(model))))
        c.event('removed')
    n = len(model)
    c.check(list(S) == model, 'wrong contents of a long sequence')
    c.eq(len(S), n, 'wrong length')
    for i in rng.sample(range(n), 40) + [0, 1, n - 1]:
        c.check(S[i] == model[i], 'wrong item at index', i=i, got=S[i])
        c.check(S.predecessor(model[i]) == model[i - 1],
                'wrong predecessor', i=i)
        c.check(S.successor(model[i]) == model[(i + 1) % n],
                'wrong successor', i=i)
    c.raises(IndexError, S.__getitem__, n)
    c.raises(IndexError, S.__getitem__, n + 1)
    c.raises(IndexError, S.__getitem__, -1)
    c.eq(repr(S), 'Sequence([' + ','.join(map(repr, model)) + '])',
         'wrong printed form')
    x = rng.choice(model)
    c.raises(SequenceError, S.append, x, pure=False)
    c.raises(SequenceError, S.insertAfter, model[0], x, pure=False)
    c.event('duplicates')
    c.check(list(S) == model, 'refused edit changed the sequence')
    c.nontrivial(cls.__name__, n, keyed)
    return S, model


C19 = Prop(
    'C19',
    rule='the sequence histories plus position comparisons after every '
         'operation, and long insertion runs at one place that exhaust the '
         'numeric tags, on both ordered sequence classes; non-trivial: '
         'distinct operation histories',
    anchors=['pads/ordered_sequence.py', 'pads/sequence.py'],
    need={'ops': 5000, 'comparisons': 50000, 'long_runs': 10})

ORDERED = [SimpleOrderedSequence, LogarithmicOrderedSequence]


@C19.driver(500, 7000)
def ordered_history(c):
    seq_history(c, ORDERED[c.i % 2], c.rng.randint(4, 40), True)


@C19.driver(6, 40, fixed=True)
def ordered_longer(c):
    """Long sequences, then crowding at one place."""
    rng = c.rng
    S, model = long_sequence(c, ORDERED[c.i % 2])

    def compare():
        for a in range(len(model) - 1):
            c.check(S.cmp(model[a], model[a + 1]) < 0 and
                    S.cmp(model[a + 1], model[a]) > 0,
                    'neighbours compare wrongly', a=a, n=len(model))
        c.event('comparisons', len(model))
    compare()
    keyed = isinstance(model[0], list)
    at = rng.choice([0, len(model) - 1, rng.randrange(len(model))])
    for i in range(10000, 10000 + rng.randint(100, 600)):
        x = [i] if keyed else i
        if i % 5:
            S.insertAfter(model[at], x)
            model.insert(at + 1, x)
        else:
            S.insertBefore(model[at], x)
            model.insert(at, x)
        if i % 100 == 0:
            compare()
    compare()
    c.check(list(S) == model, 'wrong contents of a long sequence')


@C19.driver(32, 300)
def ordered_long(c):
    """Concentrated insertions: tags collide and must be respaced."""
    rng = c.rng
    cls = ORDERED[c.i % 2]
    style = (c.i // 2) % 8
    n = rng.choice([200, 500, 900])
    keyed = rng.random() < .4
    items = [[i] for i in range(n)] if keyed else list(range(n))
    S = cls(key=lambda x: x[0]) if keyed else cls()
    model = []
    c.event('long_runs')
    for i, x in enumerate(items):
        if not model or style == 0:
            S.append(x)
            model.append(x)
        elif style == 1:
            S.insertBefore(model[0], x)
            model.insert(0, x)
        elif style == 2:
            S.insertAfter(model[0], x)
            model.insert(1, x)
        elif style == 3:
            m = len(model) // 2
            S.insertBefore(model[m], x)
            model.insert(m, x)
        elif style == 4:
            S.insertBefore(model[-1], x)
            model.insert(len(model) - 1, x)
        elif style == 5:
            m = rng.choice([0, len(model) - 1, len(model) // 3])
            if rng.random() < .5:
                S.insertAfter(model[m], x)
                model.insert(m + 1, x)
            else:
                S.insertBefore(model[m], x)
                model.insert(m, x)
        elif style == 6:
            # converge on a gap from alternating sides
            m = len(model) // 2
            if i % 2:
                S.insertAfter(model[m], x)
                model.insert(m + 1, x)
            else:
                S.insertBefore(model[m], x)
                model.insert(m, x)
        else:
            m = rng.randrange(len(model))
            S.insertAfter(model[m], x)
            model.insert(m + 1, x)
            if rng.random() < .3 and len(model) > 2:
                y = model.pop(rng.randrange(len(model)))
                S.remove(y)
        c.event('ops')
        # monitors: the neighbourhood of the insertion and random pairs
        p = len(model)
        for _ in range(6):
            a, b = rng.randrange(p), rng.randrange(p)
            r = S.cmp(model[a], model[b])
            c.event('comparisons')
            c.check((r > 0) - (r < 0) == (a > b) - (a < b),
                    'wrong comparison in a long run', i=i, style=style,
                    a=a, b=b, got=r, cls=cls.__name__)
    check_seq(c, S, model, ['long', style], id if keyed else None,
              full=False)
    for a in range(len(model) - 1):
        c.check(S.cmp(model[a], model[a + 1]) < 0 and
                S.cmp(model[a + 1], model[a]) > 0 and
                S.cmp(model[a], model[a]) == 0,
                'neighbours compare wrongly', a=a, style=style,
                cls=cls.__name__)
    c.nontrivial(cls.__name__, style, n, keyed)


@C19.driver(40, 300)
def ordered_dense(c):
    """Crowd one place, drop everything that is far from it, go on there."""
    rng = c.rng
    cls = ORDERED[c.i % 2]
    S = cls()
    model = []
    fresh = iter(range(10 ** 6))
    log = []
    c.note('log', log)

    def put(style):
        x = next(fresh)
        if not model:
            S.append(x)
            model.append(x)
            return
        m = (0, len(model) - 1, len(model) // 2,
             rng.randrange(len(model)))[style % 4]
        log.append((style, m, x))
        if style < 4:
            S.insertAfter(model[m], x)
            model.insert(m + 1, x)
        else:
            S.insertBefore(model[m], x)
            model.insert(m, x)
        c.event('ops')

    for _ in range(rng.randint(2, 5)):
        style = rng.randrange(8)
        for _ in range(rng.choice([20, 60, 61, 62, 63, 64, 65, 130])):
            put(style)
        k = rng.randint(2, 12)
        m = (0, len(model) - k, (len(model) - k) // 2,
             rng.randrange(len(model)))[style % 4]
        m = max(0, m)
        for y in model[:m] + model[m + k:]:
            log.append(('remove', y))
            S.remove(y)
        model[:] = model[m:m + k]
        c.event('long_runs')
        for _ in range(rng.choice([3, 20, 70])):
            put(style)
            for a in range(len(model) - 1):
                c.event('comparisons')
                c.check(S.cmp(model[a], model[a + 1]) < 0 and
                        S.cmp(model[a + 1], model[a]) > 0,
                        'neighbours compare wrongly', a=a, log=log,
                        cls=cls.__name__)
    check_seq(c, S, model, log, None, full=False)
    c.nontrivial(cls.__name__, log)


# ---------------------------------------------------------------------------
C20 = Prop(
    'C20',
    rule='histories of refine, add, remove, lookup and freeze against an '
         'explicit partition model, refining by lists with repetitions, '
         'foreign items and the partition\'s own sets; set identity '
         'is watched across refinements; non-trivial: at least two '
         'refinements that split some set',
    anchors=['pads/partition_refinement.py'],
    need={'ops': 3000, 'splits': 500, 'refused': 50, 'frozen': 100})


@C20.driver(600, 8000)
def partition_history(c):
    rng = c.rng
    items = gens.labels(rng, rng.randint(0, 14) if rng.random() < .99 else
                        rng.randint(50, 150))
    k = rng.randint(0, len(items))
    start = rng.choice([list, set, tuple])(items[:k])
    P = c.call(PartitionRefinement, start)
    blocks = [set(items[:k])]
    log = [('init', list(start))]
    c.note('log', log)
    splitting = 0

    def same():
        got = {frozenset(s) for s in P if s}
        c.eq(got, {frozenset(b) for b in blocks if b}, 'wrong sets', log=log)
        c.eq(sum(1 for s in P if s), len(got), 'set listed twice', log=log)
        c.eq(len(P), len(list(P)), 'wrong number of sets', log=log)
        for b in blocks:
            for x in b:
                s = P[x]
                c.eq(set(s), b, 'wrong set of an element', x=x, log=log)
                c.check(any(s is t for t in P), 'the set of an element is '
                        'not one of the listed sets', log=log)

    same()
    for step in range(rng.randint(2, 14)):
        c.event('ops')
        live = [x for b in blocks for x in b]
        r = rng.random()
        if r < .6:
            S = [x for x in items if rng.random() < rng.choice([.2, .5, .8])]
            S = [gens.copy_label(x) for x in S]
            mode = rng.randrange(6)
            if mode == 0:
                S = S + S
            elif mode == 1:
                S = S + ['foreign', ('foreign', 1)]
            elif mode == 2 and live:
                S = P[rng.choice(live)]
            elif mode == 3:
                S = set(S)
            elif mode == 4:
                S = tuple(reversed(S))
            log.append(('refine', list(S)))
            cut = set(S)
            before = {id(s): (s, set(s)) for s in P}
            if mode == 5:
                res = c.call(P.refine, iter(S), pure=False)
            else:
                res = c.call(P.refine, S, pure=mode != 2)
            want = set()
            new = []
            for b in blocks:
                a, d = b & cut, b - cut
                if a and d:
                    want.add((frozenset(a), frozenset(d)))
                    new += [a, d]
                    splitting += 1
                    c.event('splits')
                else:
                    new.append(b)
            blocks = new
            res = list(res)
            c.eq(len(res), len(want), 'wrong number of changed sets',
                 log=log, res=res)
            c.eq({(frozenset(a), frozenset(d)) for a, d in res}, want,
                 'wrong changed sets', log=log)
            now = {id(s) for s in P}
            for a, d in res:
                c.check(id(a) not in before, 'the intersection is not a '
                        'newly created set', log=log)
                c.check(id(d) in before, 'the difference is not the '
                        'existing set', log=log)
                c.check(id(a) in now and id(d) in now,
                        'returned sets are not in the partition', log=log)
                c.check(a | d == before[id(d)][1], 'pair does not come from '
                        'the set it was split from', log=log)
        elif r < .72 and live:
            x = rng.choice(live)
            log.append(('remove', x))
            c.call(P.remove, x)
            for b in blocks:
                b.discard(x)
        elif r < .84:
            out = [x for x in items if x not in live]
            if out and live:
                x, y = rng.choice(out), rng.choice(live)
                log.append(('add', x, y))
                c.call(P.add, x, P[y], pure=False)
                for b in blocks:
                    if y in b:
                        b.add(x)
        elif r < .95 and live:
            c.event('refused')
            x = rng.choice(live)
            c.raises(PartitionError, P.add, x, P[rng.choice(live)],
                     pure=False)
            out = [y for y in items if y not in live]
            if out:
                c.raises(PartitionError, P.add, rng.choice(out),
                         set(P[x]), pure=False)
        same()
    c.sample(log)
    if splitting >= 2:
        c.nontrivial(repr(log))
    if rng.random() < .6:
        c.call(P.freeze)
        c.event('frozen')
        log.append(('freeze',))
        same()
        for s in P:
            hash(s)
        for b in blocks:
            for x in b:
                hash(P[x])
        if rng.random() < .5:
            c.call(P.freeze)
            same()


# ---------------------------------------------------------------------------
C21 = Prop(
    'C21',
    rule='histories of add, remove, update and iteration with default, '
         'reversed and mutable comparisons against a set model that is '
         'sorted afresh each time; non-trivial: at least two iterations with '
         'changes between them',
    anchors=['pads/sorted_set.py'],
    need={'ops': 3000, 'iterations': 1000, 'updates': 200})


@C21.driver(700, 9000)
def sorted_history(c):
    rng = c.rng
    big = rng.random() < .01
    n = rng.randint(50, 300) if big else rng.randint(1, 12)
    kind = rng.choice(gens.ORDERABLE_KINDS)
    items = gens.labels(rng, n, kind)
    mode = rng.randrange(4)
    rank = {}
    if mode == 0:
        comparison, key = None, lambda x: x
    elif mode == 1:
        comparison = lambda a, b: (a < b) - (a > b)
        key = None
    else:
        rank = {x: rng.random() for x in items}
        comparison = lambda a, b: (rank[a] > rank[b]) - (rank[a] < rank[b])
        key = lambda x: rank[x]
    init = [x for x in items if rng.random() < .4]
    arg = rng.choice([list, tuple, set, iter])(init)
    if comparison is None and rng.random() < .5:
        S = c.call(SortedSet, arg, pure=False)
    else:
        S = c.call(SortedSet, arg, comparison, pure=False)
    model = set(init)
    log = [('init', init, mode)]
    c.note('log', log)
    rounds = changed = 0
    seldom = rng.random() < (.7 if big else .1)     # iterate seldom
    for step in range(rng.randint(100, 300) if big else rng.randint(4, 40)):
        c.event('ops')
        r = rng.random()
        if seldom and r > .75 and rng.random() < .95:
            r = rng.choice([.1, .4, .6])
        x = rng.choice(items)
        if r < .3:
            log.append(('add', x))
            c.call(S.add, gens.copy_label(x))
            model.add(x)
            changed = 1
        elif r < .5 and x in model:
            log.append(('remove', x))
            c.call(S.remove, x)
            model.discard(x)
            changed = 1
        elif r < .55 and x not in model:
            c.raises(KeyError, S.remove, x)
        elif r < .7 and x in model:
            c.event('updates')
            if rank:
                rank[x] = rng.random()
            log.append(('update', x))
            c.call(S.update, x)
            changed = 1
        elif r > .75:
            log.append(('iter',))
            c.event('iterations')
            got = list(S)
            if mode == 1:
                want = sorted(model, reverse=True)
            else:
                want = sorted(model, key=key)
            c.eq(got, want, 'wrong items or order', log=log)
            rounds += changed
            changed = 0
            if rng.random() < .3:
                it = iter(S)
                first = [y for y, _ in zip(it, range(2))]
                c.eq(first, want[:2], 'partial iteration differs', log=log)
        c.eq(len(S), len(model), 'wrong length', log=log)
    want = sorted(model, reverse=True) if mode == 1 else sorted(model,
                                                                key=key)
    c.eq(list(S), want, 'wrong final order', log=log)
    c.sample(log)
    if rounds >= 2:
        c.nontrivial(repr(log))


@C21.driver(8, 60, fixed=True)
def sorted_long(c):
    """Many changes between iterations of a large set."""
    rng = c.rng
    n = rng.randint(300, 3000)
    rank = {x: rng.random() for x in range(n)}
    own = rng.random() < .5
    comparison = (lambda a, b: (rank[a] > rank[b]) - (rank[a] < rank[b])) \
        if own else None
    key = rank.get if own else None
    model = set(rng.sample(range(n), rng.choice([0, 1, n // 2, n])))
    S = c.call(SortedSet, list(model), comparison)
    for _ in range(rng.randint(2, 5)):
        c.eq(list(S), sorted(model, key=key), 'wrong items or order', n=n)
        c.event('iterations')
        kind = rng.randrange(4)
        for _ in range(rng.randint(n // 4, 2 * n)):
            c.event('ops')
            x = rng.randrange(n)
            r = rng.random() if kind == 3 else [0, .5, .9][kind]
            if r < .4:
                S.add(x)
                model.add(x)
            elif r < .7 and x in model:
                S.remove(x)
                model.discard(x)
            elif x in model:
                rank[x] = rng.random()
                S.update(x)
                c.event('updates')
        c.eq(len(S), len(model), 'wrong length')
    c.eq(list(S), sorted(model, key=key), 'wrong final order', n=n)
    c.nontrivial('long', n, own)


@C20.driver(6, 40, fixed=True)
def partition_long(c):
    """Many elements, many sets."""
    rng = c.rng
    n = rng.randint(300, 2500)
    P = c.call(PartitionRefinement, range(n))
    cls = dict.fromkeys(range(n), 0)        # element -> number of its set
    for _ in range(rng.randint(3, 40)):
        p = rng.choice([.01, .2, .5, .9])
        S = [x for x in range(n) if rng.random() < p]
        if rng.random() < .3:
            a = rng.randrange(n)
            S = list(range(a, rng.randint(a, n)))
        rng.shuffle(S)
        before = {}
        for x, k in cls.items():
            before.setdefault(k, set()).add(x)
        cut = set(S)
        want = {(frozenset(b & cut), frozenset(b - cut))
                for b in before.values() if b & cut and b - cut}
        old = {id(s) for s in P}
        res = c.call(P.refine, S)
        c.eq(len(res), len(want), 'wrong number of changed sets', n=n)
        c.eq({(frozenset(a), frozenset(d)) for a, d in res}, want,
             'wrong changed sets', n=n)
        c.check(all(id(d) in old and id(a) not in old for a, d in res),
                'wrong set objects')
        names = {}
        cls = {x: names.setdefault((k, x in cut), len(names))
               for x, k in cls.items()}
        c.event('ops')
        c.event('splits', len(want))
        c.eq(len(P), len(names), 'wrong number of sets', n=n)
    sets = {}
    for x, k in cls.items():
        sets.setdefault(k, set()).add(x)
    c.eq({frozenset(s) for s in P}, set(map(frozenset, sets.values())),
         'wrong sets', n=n)
    c.check(all(set(P[x]) == sets[cls[x]] for x in rng.sample(range(n), 60)),
            'wrong set of an element')
    c.nontrivial('long', n, len(sets))


PROPS = [C14, C15, C16, C17, C18, C19, C20, C21]
