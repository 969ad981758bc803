"""Independent reference algorithms used by the monitors.

Everything here works on index graphs (vertices 0..n-1) and favours obvious
correctness over speed.  selftest() cross-checks the cleverer ones.
"""
from functools import lru_cache
from .gens import adjacency, masks, components, bits


# ---------------------------------------------------------------------------
# matching

def matching_size_dp(n, edges):
    """Maximum matching by dynamic programming over vertex subsets."""
    A = masks(n, edges)

    @lru_cache(maxsize=None)
    def f(alive):
        if not alive:
            return 0
        low = alive & -alive
        v = low.bit_length() - 1
        rest = alive ^ low
        best = f(rest)
        for w in bits(A[v] & rest):
            best = max(best, 1 + f(rest ^ (1 << w)))
        return best
    r = f((1 << n) - 1)
    f.cache_clear()
    return r


def matching_size(n, edges):
    """Maximum matching by the textbook O(n^3) blossom algorithm."""
    A = adjacency(n, edges)
    match = [-1] * n

    def lca(base, p, a, b):
        used = [False] * n
        while True:
            a = base[a]
            used[a] = True
            if match[a] == -1:
                break
            a = p[match[a]]
        while True:
            b = base[b]
            if used[b]:
                return b
            b = p[match[b]]

    def find(root):
        used = [False] * n
        p = [-1] * n
        base = list(range(n))
        used[root] = True
        q = [root]
        head = 0
        while head < len(q):
            v = q[head]
            head += 1
            for to in A[v]:
                if base[v] == base[to] or match[v] == to:
                    continue
                if to == root or (match[to] != -1 and p[match[to]] != -1):
                    cur = lca(base, p, v, to)
                    blossom = [False] * n

                    def mark(v, b, child):
                        while base[v] != b:
                            blossom[base[v]] = blossom[base[match[v]]] = True
                            p[v] = child
                            child = match[v]
                            v = p[match[v]]
                    mark(v, cur, to)
                    mark(to, cur, v)
                    for i in range(n):
                        if blossom[base[i]]:
                            base[i] = cur
                            if not used[i]:
                                used[i] = True
                                q.append(i)
                elif p[to] == -1:
                    p[to] = v
                    if match[to] == -1:
                        v = to
                        while v != -1:
                            pv = p[v]
                            ppv = match[pv]
                            match[v] = pv
                            match[pv] = v
                            v = ppv
                        return True
                    used[match[to]] = True
                    q.append(match[to])
        return False

    size = 0
    for v in range(n):
        if match[v] == -1 and find(v):
            size += 1
    return size


def kuhn(adj, banned_u=(), banned_v=()):
    """Maximum bipartite matching (dict v -> u); adj: dict u -> collection."""
    M = {}

    def augment(u):
        # iterative depth first search for an alternating path
        seen = set()
        stack = [(u, iter(adj[u]))]
        path = []
        while stack:
            x, it = stack[-1]
            for v in it:
                if v in seen or v in banned_v:
                    continue
                seen.add(v)
                path.append((x, v))
                if v not in M:
                    for a, b in path:
                        M[b] = a
                    return True
                stack.append((M[v], iter(adj[M[v]])))
                break
            else:
                stack.pop()
                if path:
                    path.pop()
        return False

    for u in adj:
        if u not in banned_u:
            augment(u)
    return M


# ---------------------------------------------------------------------------
# biconnectivity

def edge_blocks(n, edges):
    """Partition of the edges into biconnected components.

    Two edges are in the same block iff no vertex deletion separates them:
    refine the edge set by the components of G - v, for every v.
    """
    if n > 150:
        return edge_blocks_large(n, edges)
    A = adjacency(n, edges)
    comp0 = {}
    for c, comp in enumerate(components(A)):
        for v in comp:
            comp0[v] = c
    sig = {e: [comp0[e[0]]] for e in edges}
    for v in range(n):
        alive = set(range(n)) - {v}
        cid = {}
        for c, comp in enumerate(components(A, alive)):
            for w in comp:
                cid[w] = c
        for e in edges:
            a = e[0] if e[0] != v else e[1]
            sig[e].append(cid[a])
    groups = {}
    for e in edges:
        groups.setdefault(tuple(sig[e]), []).append(e)
    return [sorted(g) for g in groups.values()]


def edge_blocks_large(n, edges):
    """The same for large graphs: the blocks are the classes of edges linked
    by the fundamental cycles of any spanning forest, here breadth-first."""
    A = adjacency(n, edges)
    up, depth = {}, {}
    for s in range(n):
        if s in depth:
            continue
        depth[s] = 0
        queue = [s]
        for v in queue:
            for w in A[v]:
                if w not in depth:
                    depth[w] = depth[v] + 1
                    up[w] = v
                    queue.append(w)
    rep = {}

    def find(e):
        while rep.get(e, e) != e:
            rep[e] = rep.get(rep[e], rep[e])
            e = rep[e]
        return e
    for e in edges:
        u, v = e
        if up.get(u) == v or up.get(v) == u:
            continue
        while u != v:
            if depth[u] < depth[v]:
                u, v = v, u
            a, b = find(('t', u)), find(e)
            if a != b:
                rep[a] = b
            u = up[u]
    groups = {}
    for e in edges:
        u, v = e
        k = ('t', u) if up.get(u) == v else ('t', v) if up.get(v) == u else e
        groups.setdefault(find(k), []).append(e)
    return [sorted(g) for g in groups.values()]


def is_2connected(n, edges):
    """Connected and no single vertex deletion disconnects it."""
    A = adjacency(n, edges)
    if len(components(A)) > 1:
        return False
    if n > 150:
        return len(edge_blocks_large(n, edges)) == 1
    for v in range(n):
        if len(components(A, set(range(n)) - {v})) > 1:
            return False
    return True


# ---------------------------------------------------------------------------
# Hamiltonian cycles

def hamiltonian_cycles(n, edges):
    """Set of Hamiltonian cycles (frozensets of edges) by path extension."""
    if n < 3:
        return set()
    A = adjacency(n, edges)
    out = set()
    path = [0]
    used = [False] * n
    used[0] = True

    def go():
        v = path[-1]
        if len(path) == n:
            if 0 in A[v] and path[1] < path[-1]:
                cyc = frozenset(
                    (min(a, b), max(a, b))
                    for a, b in zip(path, path[1:] + path[:1]))
                out.add(cyc)
            return
        for w in A[v]:
            if not used[w]:
                used[w] = True
                path.append(w)
                go()
                path.pop()
                used[w] = False
    go()
    return out


# ---------------------------------------------------------------------------
# chordality

def hamiltonian_count(n, edges, limit=200000):
    """Number of Hamiltonian cycles, by a sweep over the edges that keeps for
    each boundary vertex the other end of its path; None when too wide."""
    A = adjacency(n, edges)
    if n < 3 or any(len(A[v]) < 2 for v in range(n)):
        return 0
    place = {}
    for s in range(n):                      # breadth-first order
        if s not in place:
            place[s] = len(place)
            todo = [s]
            for v in todo:
                for w in sorted(A[v]):
                    if w not in place:
                        place[w] = len(place)
                        todo.append(w)
    es = sorted((max(place[u], place[v]), min(place[u], place[v]))
                for u, v in edges)
    last = {}
    for i, (b, a) in enumerate(es):
        last[a] = last[b] = i
    first = {}
    for i, (b, a) in enumerate(es):
        first.setdefault(a, i)
        first.setdefault(b, i)
    begun = [sum(1 for v in first if first[v] <= i) for i in range(len(es))]
    states = {(): 1}
    total = 0
    for i, (b, a) in enumerate(es):
        new = {}
        for state, ways in states.items():
            mate = dict(state)
            for v in (a, b):
                if first[v] == i:
                    mate[v] = v
            for take in (False, True):
                M = mate
                if take:
                    x, y = mate[a], mate[b]
                    if x is None or y is None:
                        continue
                    if x == b:              # closes a cycle
                        if begun[i] == n and all(
                                m is None for v, m in mate.items()
                                if v != a and v != b) and x != a:
                            total += ways
                        continue
                    M = dict(mate)
                    M[a] = M[b] = None
                    M[x], M[y] = y, x
                ok = True
                for v in (a, b):
                    if last[v] == i:
                        if M[v] is not None:
                            ok = False
                            break
                        if M is mate:
                            M = dict(M)
                        del M[v]
                if ok:
                    key = tuple(sorted(M.items()))
                    new[key] = new.get(key, 0) + ways
        states = new
        if len(states) > limit:
            return None
    return total


def chordal(n, edges):
    """Repeatedly delete simplicial vertices."""
    A = adjacency(n, edges)
    alive = set(range(n))
    progress = True
    while alive and progress:
        progress = False
        for v in sorted(alive):
            nb = [w for w in A[v] if w in alive]
            if all(y in A[x] for i, x in enumerate(nb) for y in nb[i + 1:]):
                alive.discard(v)
                progress = True
    return not alive


def two_colorable(n, edges):
    A = adjacency(n, edges)
    color = {}
    for s in range(n):
        if s in color:
            continue
        color[s] = 0
        todo = [s]
        while todo:
            v = todo.pop()
            for w in A[v]:
                if w not in color:
                    color[w] = 1 - color[v]
                    todo.append(w)
                elif color[w] == color[v]:
                    return False
    return True


def selftest():
    import random
    from . import gens
    rng = random.Random(5)
    for t in range(300):
        n, E = gens.small_undirected(rng, 10)
        assert matching_size(n, E) == matching_size_dp(n, E)
    for t in range(100):
        a, b = rng.randint(1, 5), rng.randint(1, 5)
        adj = {u: [v for v in range(b) if rng.random() < .4]
               for u in range(a)}
        E = [(u, a + v) for u in adj for v in adj[u]]
        assert len(kuhn(adj)) == matching_size_dp(a + b, E)
    assert len(hamiltonian_cycles(*gens.complete(5))) == 12
    assert len(hamiltonian_cycles(*gens.petersen())) == 0
    assert is_2connected(*gens.cycle(4)) and not is_2connected(*gens.path(3))
    assert len(edge_blocks(*gens.union(gens.cycle(3), gens.path(3)))) == 3
    assert chordal(*gens.complete(4)) and not chordal(*gens.cycle(4))
    assert not two_colorable(*gens.cycle(5))
    return True


# ---------------------------------------------------------------------------
# Halin graphs and degree-three reductions

def _cycle_order(vs, A):
    """Cyclic order of vs if they induce exactly one cycle, else None."""
    vs = set(vs)
    if len(vs) < 3 or any(len(A[v] & vs) != 2 for v in vs):
        return None
    s = min(vs)
    order = [s]
    prev, cur = None, s
    while True:
        nxt = [w for w in A[cur] & vs if w != prev]
        prev, cur = cur, nxt[0]
        if cur == s:
            break
        order.append(cur)
    return order if len(order) == len(vs) else None


def halin_outer(n, edges, L, A=None):
    """Is G a Halin graph with leaf set L?"""
    if A is None:
        A = adjacency(n, edges)
    L = set(L)
    if n < 4 or any(len(A[v]) < 3 for v in range(n)):
        return False
    if any(len(A[v]) != 3 for v in L):
        return False
    order = _cycle_order(L, A)
    if order is None:
        return False
    k = len(order)
    cyc = {frozenset((order[i], order[(i + 1) % k])) for i in range(k)}
    T = [(u, v) for u, v in edges if frozenset((u, v)) not in cyc]
    if len(T) != n - 1:
        return False
    TA = adjacency(n, T)
    if len(components(TA)) != 1:
        return False
    if {v for v in range(n) if len(TA[v]) == 1} != L:
        return False
    pos = {v: i for i, v in enumerate(order)}
    for u, v in T:
        side = {v}
        todo = [v]
        while todo:
            x = todo.pop()
            for y in TA[x]:
                if y not in side and not (x == v and y == u):
                    side.add(y)
                    todo.append(y)
        marks = [x in side for x in order]
        changes = sum(marks[i] != marks[i - 1] for i in range(k))
        if changes > 2:
            return False
    return True


def halin_leaf_sets(n, edges):
    """All leaf sets that make the graph a Halin graph (brute force)."""
    A = adjacency(n, edges)
    if n < 4 or any(len(A[v]) < 3 for v in range(n)):
        return []
    # n - 1 tree edges and one cycle edge per leaf
    k = len(edges) - (n - 1)
    three = [v for v in range(n) if len(A[v]) == 3]
    if k < 3 or k > len(three):
        return []
    from itertools import combinations
    must = [v for v in range(n) if len(A[v]) > 3]
    return [set(L) for L in combinations(three, k)
            if halin_outer(n, edges, L, A)]


def halin_cycle(n, edges, limit=40000):
    """Some leaf set that makes the graph a Halin graph, found by following
    cycles of vertices of degree three whose third neighbours stay off the
    cycle; False when there is none, None when undecided."""
    A = adjacency(n, edges)
    if n < 4 or any(len(A[v]) < 3 for v in range(n)):
        return False
    k = len(edges) - (n - 1)
    if k < 3:
        return False
    inner = [len(A[v]) != 3 for v in range(n)]
    steps = 0
    for s in range(n):
        if inner[s]:
            continue
        for w, t in ((w, t) for w in A[s] for t in A[s] if w != t):
            # t is the tree neighbour of s, w the next on the cycle
            stack = [((s, w), frozenset([t]))]
            while stack:
                path, off = stack.pop()
                steps += 1
                if steps > limit:
                    return None
                v, u = path[-1], path[-2]
                if inner[v] or v in off or len(path) > k:
                    continue
                for x in A[v] - {u}:
                    out = next(iter(A[v] - {u, x}))
                    if out in path:
                        continue
                    if x == s:
                        if len(path) == k and \
                                halin_outer(n, edges, path, A):
                            return set(path)
                    elif x not in path:
                        stack.append((path + (x,), off | {out}))
        inner[s] = True             # no leaf in any structure left
    return False


def d3_greedy(rng, n, edges, triangles=True, paths=True, tries=3):
    """Do reductions in a random order reach K4?"""
    E0 = frozenset((min(e), max(e)) for e in edges)
    if len({v for e in E0 for v in e}) != n:
        return False
    for _ in range(tries):
        E = E0
        while True:
            if len(E) == 6 and len({v for e in E for v in e}) == 4:
                return True
            M = list(d3_moves(E, triangles, paths))
            if not M:
                break
            E = rng.choice(M)
    return False


def d3_moves(E, triangles=True, paths=True):
    """All results of one degree-three reduction of an edge set."""
    A = {}
    for u, v in E:
        A.setdefault(u, set()).add(v)
        A.setdefault(v, set()).add(u)
    three = [v for v in A if len(A[v]) == 3]
    for v in three:
        nb = sorted(A[v])
        for i in range(3):
            for j in range(i + 1, 3):
                u, w = nb[i], nb[j]
                if len(A[u]) != 3 or len(A[w]) != 3:
                    continue
                if w in A[u]:
                    if not triangles or not (v < u and v < w):
                        continue
                    out = [next(iter(A[x] - {u, v, w})) for x in (u, v, w)]
                    if len(set(out)) != 3:
                        continue
                    yield frozenset(
                        [e for e in E if not {u, v, w} & set(e)] +
                        [(min(v, o), max(v, o)) for o in out])
                elif paths:
                    apex = A[u] & A[v] & A[w]
                    if len(apex) != 1:
                        continue
                    yield frozenset([e for e in E if v not in e] +
                                    [(min(u, w), max(u, w))])


def d3_reducible(n, edges, triangles=True, paths=True, limit=20000):
    """Can some sequence of reductions reach K4?  None when undecided."""
    start = frozenset((min(e), max(e)) for e in edges)
    if len({v for e in start for v in e}) != n:
        return False                # an isolated vertex stays
    seen = {start}
    todo = [start]
    while todo:
        E = todo.pop()
        if len(E) == 6 and len({v for e in E for v in e}) == 4:
            return True
        for F in d3_moves(E, triangles, paths):
            if F not in seen:
                seen.add(F)
                if len(seen) > limit:
                    return None
                todo.append(F)
    return False


def is_wheel(n, edges):
    A = adjacency(n, edges)
    if n < 4 or len(edges) != 2 * (n - 1):
        return False
    for h in range(n):
        if len(A[h]) == n - 1 and _cycle_order(set(range(n)) - {h}, A):
            return True
    return False


# ---------------------------------------------------------------------------
# partial cubes

def distances(n, edges):
    from .gens import bfs_dist
    A = adjacency(n, edges)
    return [bfs_dist(A, v) for v in range(n)]


def partial_cube(n, edges):
    """Connected, bipartite, and the Djokovic-Winkler relation transitive."""
    if n == 0:
        return False
    D = distances(n, edges)
    if any(len(d) != n for d in D) or not two_colorable(n, edges):
        return False
    m = len(edges)
    rel = []
    for x, y in edges:
        rel.append(frozenset(
            j for j in range(m)
            if D[x][edges[j][0]] + D[y][edges[j][1]] !=
            D[x][edges[j][1]] + D[y][edges[j][0]]))
    return all(rel[j] == rel[i] for i in range(m) for j in rel[i])
