"""Reference model of Sudoku, written without the code under test.

Cells are numbered row by row; a digit set is a bit mask with bit d-1 for
digit d.
"""
import os

ROWS = [[9 * r + c for c in range(9)] for r in range(9)]
COLS = [[9 * r + c for r in range(9)] for c in range(9)]
SQUARES = [[27 * a + 3 * b + 9 * i + j for i in range(3) for j in range(3)]
           for a in range(3) for b in range(3)]
GROUPS = ROWS + COLS + SQUARES
PEERS = [sorted(set().union(*[g for g in GROUPS if c in g]) - {c})
         for c in range(81)]
PEERSET = [set(p) for p in PEERS]


def candidates(puzzle):
    return [1 << d - 1 if d else 511 for d in puzzle]


def assign(cand, c, b):
    todo = [(c, b)]
    while todo:
        c, b = todo.pop()
        if not cand[c] & b:
            return False
        cand[c] = b
        for p in PEERS[c]:
            if cand[p] & b:
                m = cand[p] & ~b
                if not m:
                    return False
                cand[p] = m
                if not m & (m - 1):
                    todo.append((p, m))
    return True


def solve(cand, limit, rng=None):
    """Up to limit solutions compatible with the candidate sets."""
    out = []
    cand = list(cand)
    for c in range(81):
        if not cand[c]:
            return out
    for c in range(81):
        if not cand[c] & (cand[c] - 1) and not assign(cand, c, cand[c]):
            return out

    def go(cand):
        best = 10
        for c in range(81):
            k = cand[c].bit_count()
            if 1 < k < best:
                best, where = k, c
                if k == 2:
                    break
        if best == 10:
            out.append(tuple(x.bit_length() for x in cand))
            return
        bits = [1 << i for i in range(9) if cand[where] >> i & 1]
        if rng:
            rng.shuffle(bits)
        for b in bits:
            new = list(cand)
            if assign(new, where, b):
                go(new)
            if len(out) >= limit:
                return
    go(cand)
    return out


def solved(puzzle, solution):
    """Is solution a completed grid that extends puzzle?"""
    return len(solution) == 81 and all(
        p in (0, s) for p, s in zip(puzzle, solution)) and all(
        sorted(solution[c] for c in g) == list(range(1, 10)) for g in GROUPS)


def full(rng):
    """A random completed grid."""
    while True:
        cand = [511] * 81
        for s in (0, 4, 8):
            p = list(range(9))
            rng.shuffle(p)
            for c, d in zip(SQUARES[s], p):
                cand[c] = 1 << d
        r = solve(cand, 1, rng)
        if r:
            return shuffled(rng, r[0])


def lines(rng):
    """Order of nine lines that keeps bands together."""
    bands = [0, 1, 2]
    rng.shuffle(bands)
    out = []
    for b in bands:
        k = [0, 1, 2]
        rng.shuffle(k)
        out += [3 * b + i for i in k]
    return out


def shuffled(rng, puzzle):
    """An equivalent puzzle."""
    d = list(range(1, 10))
    rng.shuffle(d)
    d = [0] + d
    r, c = lines(rng), lines(rng)
    flip = rng.random() < .5
    out = []
    for i in range(9):
        for j in range(9):
            x = puzzle[9 * r[i] + c[j]] if not flip else \
                puzzle[9 * r[j] + c[i]]
            out.append(d[x])
    return out


def minimal(rng, solution, keep=0):
    """Remove clues, in random order, while the solution stays unique."""
    order = list(range(81))
    rng.shuffle(order)
    p = list(solution)
    for c in order[:81 - keep]:
        old, p[c] = p[c], 0
        if len(solve(candidates(p), 2)) > 1:
            p[c] = old
    return p


def equivalent(p, q):
    """Is q obtained from p by relabelling digits, permuting lines within
    bands, permuting bands and transposing?"""
    import itertools
    three = list(itertools.permutations(range(3)))
    if sorted(map(bool, p)) != sorted(map(bool, q)):
        return False
    qcols = [[q[9 * i + j] for i in range(9)] for j in range(9)]
    qrow = [sum(map(bool, q[9 * i:9 * i + 9])) for i in range(9)]
    for flip in (False, True):
        t = p if not flip else [p[9 * j + i] for i in range(9)
                                for j in range(9)]
        prow = [sum(map(bool, t[9 * i:9 * i + 9])) for i in range(9)]

        def bands(i, used, order):
            """Row orders with the right number of clues in every row."""
            if i == 3:
                yield order
                return
            for b in range(3):
                if b not in used:
                    for k in three:
                        rows = [3 * b + x for x in k]
                        if [prow[r] for r in rows] == qrow[3 * i:3 * i + 3]:
                            yield from bands(i + 1, used | {b}, order + rows)

        def columns(j, order, f, g):
            if j == 9:
                return True
            for c in range(9):
                if c in order:
                    continue
                if j % 3 and order[j - 1] // 3 != c // 3:
                    continue
                f2, g2 = dict(f), dict(g)
                for x, y in zip((t[9 * r + c] for r in rows), qcols[j]):
                    if bool(x) != bool(y):
                        break
                    if x and (f2.setdefault(x, y) != y or
                              g2.setdefault(y, x) != x):
                        break
                else:
                    if columns(j + 1, order + [c], f2, g2):
                        return True
            return False

        for rows in bands(0, frozenset(), []):
            if columns(0, [], {}, {}):
                return True
    return False


_corpus = {}


def corpus():
    """Puzzles on which the various deductions apply: tag -> list of
    (unique?, puzzle)."""
    if not _corpus:
        path = os.path.join(os.path.dirname(__file__), 'data', 'sudoku.txt')
        with open(path) as f:
            for line in f:
                tag, kind, p = line.split()
                _corpus.setdefault(tag, []).append(
                    (kind == 'u', [int(x) for x in p]))
    return _corpus


# ---------------------------------------------------------------------------
# deductions that must have been made when the solver reports no progress

def walks(edges, v, first):
    """End points (vertex, last label) of the walks that leave v along an
    edge labelled first and never use a label twice in a row."""
    seen = set()
    todo = []
    for w, labels in edges.get(v, {}).items():
        if first in labels and (w, first) not in seen:
            seen.add((w, first))
            todo.append((w, first))
    while todo:
        x, last = todo.pop()
        for w, labels in edges.get(x, {}).items():
            for d in labels:
                if d != last and (w, d) not in seen:
                    seen.add((w, d))
                    todo.append((w, d))
    return seen


def cyclic(edges):
    """Edges (v,w,label) on closed walks without repetition."""
    out = set()
    for v in edges:
        for w, labels in edges[v].items():
            for d in labels:
                seen = {(w, d)}
                todo = [(w, d)]
                while todo:
                    x, last = todo.pop()
                    if x == v and last != d:
                        out.add((v, w, d))
                        break
                    for y, more in edges[x].items():
                        for e in more:
                            if e != last and (y, e) not in seen:
                                seen.add((y, e))
                                todo.append((y, e))
    return out


def extends(where):
    """Cells in placements of one digit that fill every group once, given
    the cells available to it."""
    memo = {}

    def search(col, used, blocks):
        key = col, used
        if key in memo:
            return memo[key]
        if col == 9:
            return set()
        got = None
        for r in range(9):
            c = 9 * r + col
            if used >> r & 1 or c not in where:
                continue
            b = 1 << (r // 3)
            if blocks & b:
                continue
            nb = blocks | b if col % 3 < 2 else 0
            rest = search(col + 1, used | 1 << r, nb)
            if rest is not None:
                got = (got or set()) | rest | {c}
        memo[key] = got
        return got
    return search(0, 0, 0) or set()


def matchable(adj):
    """Pairs (d, cell) of a bipartite graph in some perfect matching;
    None when there is none."""
    match = {}

    def augment(d, seen, skip):
        for c in adj[d]:
            if c not in seen and c != skip:
                seen.add(c)
                if c not in match or augment(match[c], seen, skip):
                    match[c] = d
                    return True
        return False
    for d in adj:
        if not augment(d, set(), None):
            return None
    out = set()
    base = dict(match)
    for d in adj:
        for c in adj[d]:
            if base[c] == d:
                out.add((d, c))
                continue
            # force d at c: its old partner must find another cell
            match.clear()
            match.update({k: x for k, x in base.items() if x != d})
            loser = match[c]
            match[c] = d
            saved = adj[d]
            adj[d] = [c]
            if augment(loser, {c}, None):
                out.add((d, c))
            adj[d] = saved
    return out


def open_deductions(cand, clues, unique, quick):
    """Deductions that apply to a stuck grid.  cand: candidate digits of
    each cell, as sets; clues: cells of the puzzle.  Yields descriptions."""
    D = range(1, 10)
    loc = {d: {c for c in range(81) if d in cand[c]} for d in D}
    inside = {(d, k): [c for c in g if d in cand[c]]
              for d in D for k, g in enumerate(GROUPS)}
    gset = [set(g) for g in GROUPS]
    filled = [len(cand[c]) == 1 for c in range(81)]

    def empties(name, d, cells, why):
        for c in cells:
            if d in cand[c]:
                return [(name, d, c, why)]
        return []

    for c in range(81):
        if not cand[c]:
            yield 'eliminate', c
    for (d, k), cells in inside.items():
        if not cells:
            yield 'locate', d, k
        elif len(cells) == 1 and not filled[cells[0]]:
            yield 'locate', d, k, cells
        elif 2 <= len(cells) <= 3:
            for m, other in enumerate(gset):
                if m != k and other >= set(cells):
                    yield from empties('align', d, other - set(cells),
                                       (k, m))
    for k in range(27):
        two = {}
        for d in D:
            if len(inside[d, k]) == 2:
                two.setdefault(tuple(inside[d, k]), []).append(d)
        for cells, digs in two.items():
            if len(digs) >= 2:
                for e in D:
                    if e not in digs:
                        yield from empties('pair', e, cells, digs)
    for line in range(18):
        for sq in range(18, 27):
            cells = gset[line] & gset[sq]
            if len(cells) != 3:
                continue
            forced = [d for d in D
                      if loc[d] & gset[line] == loc[d] & cells or
                      loc[d] & gset[sq] == loc[d] & cells]
            if len(forced) == 3:
                for d in D:
                    yield from empties(
                        'triad', d, cells if d not in forced else
                        (gset[line] | gset[sq]) - cells, forced)
    if unique:
        yield from open_rectangles(cand, loc, gset, clues, empties)
    if quick:
        return

    for k, g in enumerate(GROUPS):
        adj = {d: list(inside[d, k]) for d in D}
        ok = matchable(adj)
        if ok is None:
            yield 'group cannot be filled', k
            continue
        for d in D:
            for c in inside[d, k]:
                if (d, c) not in ok:
                    yield 'subproblem', d, c, k
    for d in D:
        for c in loc[d] - extends(loc[d]):
            yield 'nishio', d, c

    # the two graphs
    biloc = {c: {} for c in range(81)}
    for (d, k), cells in inside.items():
        if len(cells) == 2:
            v, w = cells
            biloc[v].setdefault(w, set()).add(d)
            biloc[w].setdefault(v, set()).add(d)
    bival = {c: {} for c in range(81) if len(cand[c]) == 2}
    for v in bival:
        for w in bival:
            if w in PEERSET[v] and cand[v] & cand[w]:
                bival[v][w] = set(cand[v] & cand[w])

    def other(c, d):
        return next(iter(cand[c] - {d}))

    forced = {}
    for v, w, d in cyclic(biloc):
        forced.setdefault(v, set()).add(d)
        forced.setdefault(w, set()).add(d)
    for c, digs in forced.items():
        if len(digs) == 2 and cand[c] - digs:
            yield 'bilocal', c, digs
    for v, w, d in cyclic(bival):
        for g in gset:
            if v in g and w in g:
                yield from empties('bivalue', d, g - {v, w}, (v, w))

    for c in range(81):
        if filled[c]:
            continue
        reach = {}
        degenerate = False
        for d in cand[c]:
            r1 = walks(biloc, c, d)
            r2 = walks(bival, c, d) if c in bival else set()
            reach[d] = r1, r2
            for edges, r in (biloc, r1), (bival, r2):
                # closed walk that begins and ends with the same neighbour
                for x, labels in edges.get(c, {}).items():
                    if d in labels and c not in (x,):
                        seen = {(x, d)}
                        todo = [(x, d)]
                        while todo:
                            y, last = todo.pop()
                            if y == x and last != d and len(seen) > 1:
                                degenerate = True
                                break
                            for z, more in edges[y].items():
                                for e in more:
                                    if e != last and (z, e) not in seen:
                                        seen.add((z, e))
                                        todo.append((z, e))
        for d in cand[c]:
            r1, r2 = reach[d]
            if not degenerate and ((c, d) in r1 or (c, d) in r2):
                yield 'repeat', c, d
            for x, e in r1:
                if e == d and x != c:
                    yield from empties('path', d, PEERSET[c] & PEERSET[x],
                                       (c, x))
            must = set(r1)
            if c in bival:
                for x, e in reach[other(c, d)][1]:
                    y = other(x, e)
                    must.add((x, y))
                    if y == d and x != c:
                        yield from empties('path', d,
                                           PEERSET[c] & PEERSET[x], (c, x))
            for e in D:
                cells = [x for x, y in must if y == e]
                hit = set()
                for x in cells:
                    if x in hit:
                        yield 'conflict', c, d, e
                    hit |= PEERSET[x]
                if cells:
                    for k in range(27):
                        if all(x in hit for x in inside[e, k]):
                            yield 'conflict', c, d, e, k


def open_rectangles(cand, loc, gset, clues, empties):
    D = range(1, 10)
    for r1 in range(9):
        for r2 in range(r1 + 1, 9):
            for c1 in range(9):
                for c2 in range(c1 + 1, 9):
                    if (r1 // 3 == r2 // 3) == (c1 // 3 == c2 // 3):
                        continue
                    corner = [9 * r + c for r in (r1, r2) for c in (c1, c2)]
                    if any(x in clues for x in corner):
                        continue
                    yield from open_rectangle(
                        cand, loc, gset, r1, r2, c1, c2, set(corner), empties)


def open_rectangle(cand, loc, gset, r1, r2, c1, c2, corner, empties):
    D = range(1, 10)
    digs = [d for d in D if loc[d] & corner]
    for x in corner:
        rest = corner - {x}
        vals = set().union(*[cand[y] for y in rest])
        if len(vals) == 2 and all(len(cand[y]) == 2 for y in rest):
            for d in vals:
                yield from empties('rectangle 1', d, [x], corner)
    if len(digs) == 3:
        for d in digs:
            a = loc[d] & corner
            for g in gset:
                if a <= g:
                    yield from empties('rectangle 2', d, g - a, corner)
    side = {'r1': gset[r1], 'r2': gset[r2],
            'c1': gset[9 + c1], 'c2': gset[9 + c2]}
    opposite = {'r1': 'r2', 'r2': 'r1', 'c1': 'c2', 'c2': 'c1'}
    for s, cells in side.items():
        vals = set().union(*[cand[y] for y in corner & cells])
        if len(vals) != 2:
            continue
        for d in vals:
            e = next(iter(vals - {d}))
            t = side[opposite[s]]
            if loc[d] & t <= corner:
                yield from empties('rectangle 3', e, loc[d] & t, corner)
            for p in side:
                if p[0] != s[0] and loc[d] & side[p] <= corner:
                    yield from empties('rectangle 4', e,
                                       corner - cells - side[p], corner)
    squares = [g for g in gset[18:] if g & corner]
    both = squares[0] | squares[1]
    for i, d in enumerate(D):
        for e in list(D)[i + 1:]:
            cells = (loc[d] | loc[e]) & both
            extra = cells - corner
            if len(extra) != 1 or not all(
                    loc[f] & s for f in (d, e) for s in squares):
                continue
            shapes = []
            five = corner | extra
            a, b = [five & s for s in squares]
            for w in a:
                for x in a - {w}:
                    for y in b:
                        for z in b - {y}:
                            # d at w and y, e at x and z
                            if y in PEERSET[w] or z in PEERSET[x]:
                                continue
                            if {w, x, y, z} != corner:
                                shapes.append({w, x, y, z})
            if not shapes:
                continue
            some = set().union(*shapes)
            every = set.intersection(*shapes)
            for f in (d, e):
                yield from empties('trapezoid', f, five - some, (d, e))
            for f in D:
                if f not in (d, e):
                    yield from empties('trapezoid', f, every, (d, e))
