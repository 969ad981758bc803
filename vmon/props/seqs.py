"""C35 LCS, C36 LIS, C37 offline and C38 online concave minima, C39 text
wrapping, C40 frequency estimation."""
import functools
from ..core import Prop
from .. import gens
from pads.lcs import longest_common_subsequence
from pads.longest_increasing_subsequence import longest_increasing_subsequence
from pads.smawk import ConcaveMinima, OnlineConcaveMinima
from pads.wrap import wrap
from pads.frequencyestimator import FrequencyEstimator


def subsequence(S, X, same=lambda a, b: a is b or a == b):
    it = iter(X)
    return all(any(same(s, x) for x in it) for s in S)


# ---------------------------------------------------------------------------
C35 = Prop(
    'C35',
    rule='pairs of sequences (strings, lists with unhashable or unorderable '
         'items, iterators) over small and large alphabets, related by edits; '
         'length against a second dynamic program; non-trivial: answer '
         'neither empty nor equal to one of the inputs',
    anchors=['pads/lcs.py'],
    need={'calls': 500, 'proper': 100})


def lcs_length(A, B):
    row = [0] * (len(B) + 1)
    for a in A:
        prev = 0
        for j, b in enumerate(B, 1):
            prev, row[j] = row[j], prev + 1 if a == b else max(
                row[j], row[j - 1])
    return row[-1]


@C35.driver(700, 9000)
def lcs(c):
    rng = c.rng
    k = rng.choice([1, 2, 2, 3, 4, 10])
    n = rng.choice([0, 1, 2, 3, 5, 8, 12, 25])
    big = rng.random() < .004
    if big:
        n = rng.randint(150, 350)
        k = rng.choice([2, 5, 400])
    A = [rng.randrange(k) for _ in range(n)]
    if big or rng.random() < .5:
        B = list(A)
        for _ in range(rng.randint(0, 6)):
            r = rng.random()
            if r < .4 and B:
                B.pop(rng.randrange(len(B)))
            elif r < .8:
                B.insert(rng.randint(0, len(B)), rng.randrange(k))
            elif not big:
                rng.shuffle(B)
    else:
        B = [rng.randrange(k) for _ in range(rng.choice([0, 1, 3, 8, 20]))]
    kind = rng.randrange(7)
    if kind == 0:
        A, B = [''.join(chr(97 + x) for x in S) for S in (A, B)]
    elif kind == 1:
        A, B = [[[x] for x in S] for S in (A, B)]
    elif kind == 2:
        A, B = [[gens.Valued(x, 1) for x in S] for S in (A, B)]
    elif kind == 3:
        B = [float(x) for x in B]
    elif kind == 4:
        A, B = tuple(A), tuple(B)
    elif kind == 6:
        odd = [None, '', (), 'x', frozenset(), Ellipsis, 0, b'', 'None',
               NotImplemented]
        rng.shuffle(odd)
        A, B = [[odd[x] if x < 10 else x for x in S] for S in (A, B)]
    c.note('A, B', A, B)
    c.sample((A, B))
    if rng.random() < .2:
        got = list(c.call(longest_common_subsequence, iter(A), iter(B),
                          pure=False))
    else:
        got = list(c.call(longest_common_subsequence, A, B))
    c.check(subsequence(got, A), 'not a subsequence of the first', got=got,
            A=A, B=B)
    c.check(subsequence(got, B), 'not a subsequence of the second', got=got,
            A=A, B=B)
    c.eq(len(got), lcs_length(A, B), 'not a longest common subsequence',
         A=A, B=B, found=got)
    if 0 < len(got) < min(len(A), len(B)):
        c.event('proper')
        c.nontrivial(repr(A), repr(B))


# ---------------------------------------------------------------------------
C36 = Prop(
    'C36',
    rule='sequences with repeated values, runs, and equal but distinct '
         'objects; the answer is checked to be a strictly increasing '
         'subsequence of optimal length ending as documented; non-trivial: '
         'answer of length at least 2 shorter than the input',
    anchors=['pads/longest_increasing_subsequence.py'],
    need={'calls': 500, 'equal_ends': 50})


class Tagged:
    """Compares by value only; tells equal values apart by tag."""
    __slots__ = ('v', 'tag')

    def __init__(self, v, tag):
        self.v = v
        self.tag = tag

    def __lt__(self, other):
        return self.v < other.v

    def __gt__(self, other):
        return self.v > other.v

    def __le__(self, other):
        return self.v <= other.v

    def __ge__(self, other):
        return self.v >= other.v

    def __eq__(self, other):
        return self.v == other.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return '%r#%r' % (self.v, self.tag)


@C36.driver(6, 48, fixed=True)
def lis_long(c):
    """Thousands of items, against ranks kept in a Fenwick tree."""
    rng = c.rng
    k = c.i % 6
    n = rng.randint(1500, 6000)
    if k == 0:
        V = list(range(n))
    elif k == 1:                            # rises one after another
        a, b = rng.randint(1000, n), rng.randint(1000, n)
        V = list(range(a)) + [x - b - 5 for x in range(b)]
    elif k == 2:
        V = [x // 3 + rng.randint(-40, 40) for x in range(n)]
    elif k == 3:
        V = [rng.randrange(n // 2) for _ in range(n)]
    elif k == 4:
        V = list(range(n)) + [rng.randrange(n) for _ in range(300)]
    else:
        V = list(range(n))
        for _ in range(rng.randint(1, 200)):
            i, j = rng.randrange(n), rng.randrange(n)
            V[i], V[j] = V[j], V[i]
    S = [Tagged(v, i) for i, v in enumerate(V)]
    c.note('kind, length', k, len(V))
    got = list(c.call(longest_increasing_subsequence, S))
    rank = {v: r for r, v in enumerate(sorted(set(V)))}
    tree = [0] * (len(rank) + 1)
    best = []
    for v in V:
        r, b = rank[v], 0
        while r:
            b = max(b, tree[r])
            r &= r - 1
        best.append(b + 1)
        r = rank[v] + 1
        while r < len(tree):
            tree[r] = max(tree[r], b + 1)
            r += r & -r
    L = max(best)
    c.eq(len(got), L, 'not a longest increasing subsequence', kind=k, n=n)
    for x, y in zip(got, got[1:]):
        if not (x.v < y.v and x.tag < y.tag):
            c.fail('not an increasing subsequence', x=x, y=y)
    c.check(all(x is S[x.tag] for x in got), 'not items of the sequence')
    e, i = min((V[i], i) for i in range(len(V)) if best[i] == L)
    c.check(got[-1] is S[i], 'does not end with the earliest occurrence of '
            'the smallest possible value', kind=k, n=n)
    c.event('equal_ends', sum(v == e for v in V) > 1)
    c.nontrivial('long', k, n)


@C36.driver(900, 12000)
def lis(c):
    rng = c.rng
    n = rng.choice([0, 1, 2, 3, 5, 8, 15, 30])
    k = rng.choice([2, 4, 10, 1000])
    if rng.random() < .005:
        n = rng.randint(200, 500)
        k = rng.choice([300, 10 ** 6])
    V = [rng.randrange(k) for _ in range(n)]
    r = rng.random()
    if r < .1:
        V.sort()
    elif r < .2:
        V.sort(reverse=True)
    elif r < .3:
        V = [v // 2 for v in range(n)][::-1] + V
    kind = rng.randrange(4)
    if kind == 0:
        S = V
    elif kind == 1:
        S = [Tagged(v, i) for i, v in enumerate(V)]
    elif kind == 2:
        S = [(v, v) for v in V]
    else:
        S = ['%09d' % v for v in V]
    c.note('S', S)
    c.sample(S)
    if rng.random() < .2:
        got = list(c.call(longest_increasing_subsequence, iter(S),
                          pure=False))
    else:
        got = list(c.call(longest_increasing_subsequence, S))
    # longest increasing subsequence ending at each position
    best = []
    for i, v in enumerate(V):
        best.append(1 + max([best[j] for j in range(i) if V[j] < v],
                            default=0))
    L = max(best, default=0)
    c.eq(len(got), L, 'not a longest increasing subsequence', S=S, found=got)
    for x, y in zip(got, got[1:]):
        c.check(x < y, 'not increasing', S=S, found=got)
    c.check(subsequence(got, S, (lambda a, b: a is b) if kind == 1 else
                        (lambda a, b: a == b)), 'not a subsequence', S=S,
            found=got)
    if got:
        e = min(V[i] for i in range(len(V)) if best[i] == L)
        i = min(i for i in range(len(V)) if best[i] == L and V[i] == e)
        c.check(got[-1] == S[i], 'does not end with the smallest possible '
                'value', S=S, found=got)
        if kind == 1:
            c.check(got[-1] is S[i], 'does not end with the earliest '
                    'occurrence', S=S, found=got)
            if sum(v == e for v in V) > 1:
                c.event('equal_ends')
    if 2 <= len(got) < len(V):
        c.nontrivial(V, kind)


# ---------------------------------------------------------------------------
C37 = Prop(
    'C37',
    rule='totally monotone matrices (Monge sums with zeros for ties, column '
         'transforms, 0/1 staircases) with arbitrary row and column labels, '
         'against scanning each column; non-trivial: minima in at least two '
         'rows',
    anchors=['pads/smawk.py'],
    need={'calls': 500, 'columns': 3000, 'ties': 200},
    assumptions=['matrices satisfy the documented monotonicity condition, '
                 'which the generator re-checks on every matrix'])


def monge(rng, R, C):
    """Matrix in which row differences M[i]-M[i'] (i<i') never decrease
    along the columns."""
    hi = rng.choice([1, 2, 5, 50])
    p = rng.choice([.1, .3, .9])
    D = [[rng.randint(0, hi) if rng.random() < p else 0 for _ in range(C)]
         for _ in range(R)]
    col = [rng.randint(-hi, hi) for _ in range(C)]
    M = [[0] * C for _ in range(R)]
    for i in range(R):
        acc = 0
        for j in range(C):
            acc += D[i][j]
            M[i][j] = (M[i - 1][j] if i else 0) - acc
    # rows decrease towards the right and the bottom; balance by an
    # increasing term so that the minima move through the rows
    up = [0]
    for i in range(R):
        up.append(up[-1] + rng.randint(0, max(1, hi * C // 3)))
    return [[M[i][j] + up[i] + col[j] for j in range(C)] for i in range(R)]


def totally_monotone(M):
    R, C = len(M), len(M[0])
    for i in range(R):
        for k in range(i + 1, R):
            seen = False
            for j in range(C):
                if M[i][j] > M[k][j]:
                    seen = True
                elif seen:
                    return False
    return True


def random_monotone(rng, R, C):
    for _ in range(20):
        k = rng.randrange(4)
        if k == 0:
            M = monge(rng, R, C)
        elif k == 1:                    # staircase with ties
            start = sorted(rng.randint(0, C) for _ in range(R))
            M = [[0 if start[i] <= j else 1 for j in range(C)]
                 for i in range(R)]
        elif k == 2:                    # distances between points
            xs = sorted(rng.randint(0, 3 * R) for _ in range(R))
            ys = sorted(rng.randint(0, 3 * R) for _ in range(C))
            M = [[abs(x - y) if R % 2 else (x - y) ** 2 for y in ys]
                 for x in xs]
        else:                           # transform each column
            M = monge(rng, R, C)
            for j in range(C):
                s, t = rng.randint(1, 5), rng.randint(-9, 9)
                for i in range(R):
                    M[i][j] = M[i][j] * s + t
        if totally_monotone(M):
            return M
    return [[0] * C for _ in range(R)]


@C37.driver(700, 9000)
def offline(c):
    rng = c.rng
    R = rng.choice([1, 2, 3, 4, 7, 12, 25])
    C = rng.choice([1, 2, 3, 4, 7, 12, 25])
    M = random_monotone(rng, R, C)
    c.check(totally_monotone(M), 'generator error', M=M)
    rows = gens.labels(rng, R)
    cols = gens.labels(rng, C)
    if rng.random() < .3:
        rows, cols = range(R), range(C)
    ri = {r: i for i, r in enumerate(rows)}
    ci = {x: j for j, x in enumerate(cols)}
    c.note('M', M)
    c.sample(M)

    def f(r, x):
        c.event('entries')
        return M[ri[r]][ci[x]]
    got = c.call(ConcaveMinima, rows, cols, f)
    c.eq(set(got), set(cols), 'wrong set of columns', M=M)
    used = set()
    for j, x in enumerate(cols):
        column = [M[i][j] for i in range(R)]
        v = min(column)
        i = column.index(v)
        if column.count(v) > 1:
            c.event('ties')
        c.event('columns')
        used.add(i)
        c.eq(tuple(got[x]), (v, rows[i]), 'wrong column minimum', M=M, col=x,
             rows=list(rows))
    c.eq(c.call(ConcaveMinima, rows, [], f), {}, 'no columns')
    if len(used) > 1:
        c.nontrivial(M)


@C37.driver(20, 200)
def offline_large(c):
    rng = c.rng
    R, C = rng.randint(50, 400), rng.randint(50, 400)
    xs = sorted(rng.randint(0, 500) for _ in range(R))
    ys = sorted(rng.randint(0, 500) for _ in range(C))
    got = c.call(ConcaveMinima, range(R), range(C),
                 lambda i, j: (xs[i] - ys[j]) ** 2)
    for j in range(C):
        column = [(xs[i] - ys[j]) ** 2 for i in range(R)]
        v = min(column)
        c.event('columns')
        c.eq(tuple(got[j]), (v, column.index(v)), 'wrong column minimum in '
             'a large matrix', xs=xs, y=ys[j])
    c.nontrivial(xs, ys)


@C37.driver(6, 36, fixed=True)
def offline_huge(c):
    rng = c.rng
    k = c.i % 6
    R, C = rng.randint(600, 1500), rng.randint(600, 1500)
    xs = sorted(rng.randint(0, 900) for _ in range(R))
    ys = sorted(rng.randint(0, 900) for _ in range(C))
    off = [rng.randint(0, 3) for _ in range(R)]

    def f(i, j):
        if k == 0:
            return 0
        if k == 1:
            return off[i]
        if k == 2:
            return off[i] - (i > R // 2) * 2
        if k == 3:
            return abs(xs[i] - ys[j])
        if k == 4:
            return max(0, abs(xs[i] - ys[j]) - 3)
        return (xs[i] - ys[j]) ** 2 + off[0]
    c.note('kind', k, R, C)
    got = c.call(ConcaveMinima, range(R), range(C), f)
    c.eq(set(got), set(range(C)), 'wrong columns')
    for j in sorted(set(rng.sample(range(C), 150)) | {0, C - 1, C - 2}):
        column = [f(i, j) for i in range(R)]
        v = min(column)
        c.event('columns')
        c.eq(tuple(got[j]), (v, column.index(v)), 'wrong column minimum in '
             'a huge matrix', kind=k, R=R, C=C, j=j)
    c.nontrivial('huge', k, R, C)


# ---------------------------------------------------------------------------
C38 = Prop(
    'C38',
    rule='online recurrences with convex gap costs and ties, queried in '
         'order, out of order, by iteration and by index; the matrix '
         'function itself reads earlier values and checks that only finished '
         'rows are asked for; non-trivial: at least two different indices',
    anchors=['pads/smawk.py'],
    need={'calls': 300, 'values': 5000, 'entries': 20000},
    assumptions=['cost functions satisfy the documented concavity'])


@C38.driver(500, 6000)
def online(c):
    rng = c.rng
    n = rng.choice([1, 2, 3, 5, 8, 15, 30, 60, 120])
    if rng.random() < .005:
        n = rng.randint(250, 400)
    run_online(c, n, rng.randrange(5))


@C38.driver(8, 48, fixed=True)
def online_long(c):
    run_online(c, c.rng.randint(500, 1200), (0, 1, 2, 4)[c.i % 4])


def run_online(c, n, kind):
    rng = c.rng
    fix = rng.choice([0, 1, 3, 10, 100])
    if kind == 0:                       # convex function of the gap
        p = rng.choice([1, 2, 3])

        def w(i, j):
            return fix + (j - i) ** p
    elif kind == 1:                     # convex function of a varying gap
        x = [0]
        for _ in range(4 * n + 10):
            x.append(x[-1] + rng.choice([0, 1, 1, 2, 7]))
        t = rng.choice([2, 5, 12])

        def w(i, j):
            g = x[j] - x[i]
            return fix + (10 * (g - t) if g > t else (t - g) ** 2 // 2)
    elif kind == 2:                     # everything ties
        def w(i, j):
            return 0
    elif kind == 3:                     # Monge by counting pairs
        m = 4 * n + 10
        pts = [(rng.randrange(m), rng.randrange(m)) for _ in range(m // 2)]
        # number of points with i <= x < y <= j grows supermodularly
        P = [(min(q), max(q)) for q in pts]

        @functools.lru_cache(None)
        def w(i, j):
            return fix + sum(i <= x and y <= j for x, y in P)
    else:                               # affine gaps with row offsets
        a = [rng.randint(0, 5) for _ in range(4 * n + 10)]

        def w(i, j):
            return a[i] + fix * (j - i)
    use_values = rng.random() < .8
    start = rng.choice([0, 5, -3])
    want = [start]
    for j in range(1, n + 1):
        want.append(min((want[i] if use_values else 0) + w(i, j)
                        for i in range(j)))
    O = None
    depth = [0]

    def M(i, j):
        c.event('entries')
        c.check(0 <= i < j, 'asked for an entry on or below the diagonal',
                i=i, j=j)
        if j > n:
            return -i                   # documented way to answer
        if not use_values:
            return w(i, j)
        depth[0] += 1
        c.check(depth[0] == 1, 'asked for a row whose value is not finished',
                i=i, j=j)
        v = O.value(i)
        depth[0] -= 1
        c.eq(v, want[i], 'value of a finished row changed', i=i, j=j)
        return v + w(i, j)
    O = c.call(OnlineConcaveMinima, M, start)
    c.note('n, kind', n, kind)
    used = set()
    mode = rng.randrange(3)
    if mode == 0:
        order = list(range(n + 1))
    elif mode == 1:
        order = [n] + [rng.randint(0, n) for _ in range(n + 1)]
    else:
        order = [rng.randint(0, n) for _ in range(2 * n)] + [n]
    if rng.random() < .5:
        it = iter(O)
        for j in range(n + 1):
            v, i = next(it)
            check_online(c, j, v, i, want, use_values, w, used)
    for j in order:
        if rng.random() < .5:
            v, i = O.value(j), O.index(j)
        else:
            i = O.index(j)
            v = O.value(j)
        check_online(c, j, v, i, want, use_values, w, used)
    if len(used) > 2:
        c.nontrivial(n, kind, want)


def check_online(c, j, v, i, want, use_values, w, used):
    c.event('values')
    c.eq(v, want[j], 'wrong minimum', j=j)
    if j == 0:
        c.eq(i, None, 'index of the initial value')
        return
    c.check(isinstance(i, int) and 0 <= i < j, 'index out of range', i=i,
            j=j)
    c.eq((want[i] if use_values else 0) + w(i, j), want[j],
         'index does not attain the minimum', i=i, j=j)
    used.add(i)


# ---------------------------------------------------------------------------
C39 = Prop(
    'C39',
    rule='texts with long words, hyphens, sentence ends and odd white space, '
         'all options and penalties, against an exhaustive quadratic dynamic '
         'program over break points; non-trivial: at least two lines',
    anchors=['pads/wrap.py', 'pads/smawk.py'],
    need={'calls': 500, 'lines': 1000, 'several_lines': 200})


def random_text(rng, n):
    mx = rng.choice([1, 3, 6, 12, 25])
    if rng.random() < .1:
        mx = rng.choice([100, 300, 1000])
    hy = rng.choice([0, 0, .3])
    out = []
    for _ in range(n):
        w = ''.join(rng.choice('abcdeXY') for _ in range(rng.randint(1, mx)))
        if rng.random() < hy:
            for _ in range(rng.randint(1, 3) if rng.random() < .95 else
                           rng.randint(4, 20)):
                w += '-' + ''.join(rng.choice('fg') for _ in
                                   range(rng.randint(0 if rng.random() < .1
                                                     else 1, mx)))
        if rng.random() < .2:
            w += '.'
        if rng.random() < .05:
            w = rng.choice(['A.', 'b.', 'J.', '-', '.', 'Mr.', 'x-Y.', '--'])
        out.append(w)
    sep = [' ', ' ', '  ', '\n', '\t', ' \n ']
    s = rng.choice(['', ' ']) + ''.join(w + rng.choice(sep) for w in out)
    return s


def pieces(text, french):
    """(word, number of spaces after it when not breaking)."""
    out = []
    for hw in text.split():
        parts = hw.split('-')
        out += [(p + '-', 0) for p in parts[:-1]]
        w = parts[-1]
        wide = w.endswith('.') and not (len(hw) <= 2 and hw[0].isupper())
        out.append((w, 2 if wide and not french else 1))
    return out


def run_wrap(c, n):
    rng = c.rng
    text = random_text(rng, n)
    kw = {}
    if rng.random() < .8:
        kw['target'] = rng.choice([1, 3, 8, 15, 30, 76])
        if rng.random() < .1 or len(text) > 25 * n and rng.random() < .5:
            kw['target'] = rng.choice([150, 400, 1000, 5000])
    if rng.random() < .3:
        kw['longlast'] = rng.random() < .7
    if rng.random() < .3:
        kw['frenchspacing'] = rng.random() < .7
    if rng.random() < .2:
        kw['measure'] = rng.choice([
            lambda s: 2 * len(s), lambda s: sum(1 + (x in 'aX') for x in s),
            lambda s: sum(x != ' ' for x in s)])
    for o, v in (('overpenalty', [0, 1, 10, 1000]),
                 ('nlinepenalty', [0, 1, 30]),
                 ('onewordpenalty', [0, 100, 2000]),
                 ('hyphenpenalty', [0, 100, 2000])):
        if rng.random() < .2:
            kw[o] = rng.choice(v)
    c.note('text', text, {k: v for k, v in kw.items()})
    c.sample(text)
    lines = list(c.call(wrap, text, **kw))
    W = pieces(text, kw.get('frenchspacing', False))
    measure = kw.get('measure', len)
    gap = [0, measure(' '), measure('  ')]
    target = kw.get('target', 76)
    N = len(W)

    def penalty(i, j):
        L = sum(measure(W[k][0]) for k in range(i, j)) + sum(
            gap[W[k][1]] for k in range(i, j - 1))
        p = kw.get('nlinepenalty', 1000)
        if L > target:
            p += kw.get('overpenalty', 1000) * (L - target)
        elif j < N or kw.get('longlast', False):
            p += (target - L) ** 2
        elif i == j - 1:
            p += kw.get('onewordpenalty', 25)
        if W[j - 1][1] == 0:
            p += kw.get('hyphenpenalty', 25)
        return p

    def line(i, j):
        return ''.join(W[k][0] + ' ' * (W[k][1] if k < j - 1 else 0)
                       for k in range(i, j))
    best = [0]
    for j in range(1, N + 1):
        best.append(min(best[i] + penalty(i, j) for i in range(j)))
    # all ways in which the lines may correspond to the words
    states = {0: 0}
    for s in lines:
        new = {}
        for i, cost in states.items():
            for j in range(i + 1, N + 1):
                if line(i, j) == s:
                    x = cost + penalty(i, j)
                    if j not in new or x < new[j]:
                        new[j] = x
                elif len(line(i, j)) > len(s) + 2:
                    break
        states = new
        c.check(states, 'line does not continue the text', line=s,
                lines=lines, text=text)
    c.check(N in states, 'lines do not make up the text', lines=lines,
            text=text)
    c.eq(states[N], best[N], 'the breaks are not the best ones',
         lines=lines, text=text)
    c.event('lines', len(lines))
    if len(lines) > 1:
        c.event('several_lines')
        c.nontrivial(text)


@C39.driver(700, 8000)
def wrapping(c):
    run_wrap(c, c.rng.choice([0, 1, 2, 3, 5, 8, 12]))


@C39.driver(60, 800)
def wrapping_long(c):
    run_wrap(c, c.rng.choice([20, 30, 45]))


# ---------------------------------------------------------------------------
C40 = Prop(
    'C40',
    rule='streams with heavy hitters, round-robin adversaries and many '
         'distinct keys, observed at random moments; estimates against exact '
         'counts; non-trivial: more distinct keys than the structure may '
         'hold',
    anchors=['pads/frequencyestimator.py'],
    need={'keys_counted': 10000, 'estimates': 10000, 'frequent_keys': 500,
          'overflows': 50})


@C40.driver(200, 2500)
def frequencies(c):
    rng = c.rng
    acc = rng.choice([1, .5, .34, .3, .25, .2, .1, .07, 1 / 3, 1 / 7,
                      1 / 49, .03, .01])
    fine = rng.random() < .03
    if fine:
        acc = rng.choice([.004, .001, .0005, .0003, 1e-5])
    E = c.call(FrequencyEstimator, acc)
    limit = 1 / acc
    K = rng.choice([1, 2, 3, 5, 12, 40, 300])
    names = gens.labels(rng, K)
    mode = rng.randrange(5)
    if fine:                            # with many keys
        K = rng.randint(500, 4000)
        names = list(range(-2, K - 2))
        mode = rng.choice([0, 2, 3])
    exact = {}
    total = 0
    N = rng.choice([1, 5, 30, 200, 600])
    if rng.random() < .02:
        N = rng.randint(2000, 5000)
    if fine:
        N = K + rng.randint(0, 2 * K)
    w = [rng.random() ** 6 for _ in range(K)]
    c.note('accuracy', acc, 'mode', mode, 'keys', K)
    c.sample((acc, mode, K, N))
    c.eq(E[names[0]], 0, 'frequency before any data')
    for t in range(N):
        if mode == 0:
            x = names[t % K]
        elif mode == 1:
            x = rng.choices(names, w)[0]
        elif mode == 2:                 # one heavy key, many others
            x = names[0] if rng.random() < .4 else rng.choice(names)
        elif mode == 3:                 # phases
            x = names[t * K // N]
        else:                           # attack the keys being held
            held = list(E)
            x = rng.choice([y for y in names if y not in held] or names)
        E += gens.copy_label(x)
        c.event('keys_counted')
        exact[x] = exact.get(x, 0) + 1
        total += 1
        if rng.random() < (.003 if fine else .1) or t == N - 1:
            held = list(E)
            c.eq(len(set(held)), len(held), 'key listed twice')
            if fine:
                held = dict.fromkeys(held)
            c.check(len(held) <= limit + 1e-9, 'too many keys held',
                    held=len(held), limit=limit)
            for y in held:
                c.check(y in exact, 'key that never occurred', key=y)
            for y in names[:50]:
                c.event('estimates')
                true = exact.get(y, 0) / total
                est = E[y]
                c.check(true - acc - 1e-9 <= est <= true + 1e-9,
                        'estimate outside the accuracy', key=y, estimate=est,
                        true=true, accuracy=acc)
                if y not in held:
                    c.eq(est, 0, 'estimate for a key not held', key=y)
                elif est == 0:
                    c.fail('held key has frequency zero', key=y)
                if true > acc + 1e-9:
                    c.event('frequent_keys')
                    c.check(y in held, 'frequent key was lost', key=y,
                            true=true, accuracy=acc)
    if len(exact) > limit:
        c.event('overflows')
        c.nontrivial(acc, mode, K, N)


PROPS = [C35, C36, C37, C38, C39, C40]
