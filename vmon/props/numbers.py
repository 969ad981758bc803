"""C31 sieves, C32 Lyndon words, C33 integer partitions, C34 permutation
generators, C47 integer points."""
import functools
import itertools
from ..core import Prop
from pads import eratosthenes as er
from pads import lyndon as ly
from pads import integer_partitions as ip
from pads import permutations as pm
from pads.integerpoints import IntegerPointsByDistance

# ---------------------------------------------------------------------------
C31 = Prop(
    'C31',
    rule='prefixes of the sequences, several generators running at once at '
         'different speeds, the function form queried in arbitrary order; '
         'each value against trial division; non-trivial: distinct integers '
         'observed',
    anchors=['pads/eratosthenes.py'],
    need={'primes': 2000, 'factorizations': 4000, 'moebius': 3000,
          'practical': 500})


@functools.lru_cache(None)
def factor(n):
    F = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            F[p] = F.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        F[n] = F.get(n, 0) + 1
    return F


def mu(n):
    F = factor(n)
    return 0 if any(x > 1 for x in F.values()) else (-1) ** len(F)


def practical(n):
    """Every smaller number is a sum of distinct divisors."""
    sums = 1
    for d in range(1, n + 1):
        if n % d == 0:
            sums |= sums << d
    return all(sums >> k & 1 for k in range(1, n))


practical = functools.lru_cache(None)(practical)


@C31.driver(24, 60)
def sieves(c):
    rng = c.rng
    N = rng.choice([200, 800, 2500, 6000] if c.tier == 'quick' else
                   [800, 3000, 20000, 60000])
    g = c.call(er.primes)
    got = []
    for p in g:
        if p > N:
            break
        got.append(p)
        c.event('primes')
    s = bytearray([1]) * (N + 1)
    s[:2] = b'\0\0'
    for i in range(2, N + 1):
        if s[i]:
            for j in range(2 * i, N + 1, i):
                s[j] = 0
    c.eq(got, [i for i in range(N + 1) if s[i]], 'wrong primes', N=N)
    kept = []
    for n, F in c.call(er.factored_integers):
        c.eq(n, len(kept) + 1, 'integers out of order')
        c.eq(dict(F), factor(n), 'wrong factorization', n=n)
        c.event('factorizations')
        kept.append(F)
        c.nontrivial(n)
        if n >= N // 2:
            break
    for i, F in enumerate(kept):
        c.eq(dict(F), factor(i + 1), 'factorization changed after it was '
             'given out', n=i + 1)
    c.sample(('up to', N))


@C31.driver(4, 4, fixed=True)
def far(c):
    """One long prefix of each sequence, against a table of least factors."""
    N = [600000, 260000, 120000, 12000][c.i]
    if c.tier != 'quick':
        N *= 3
    N += c.rng.randint(0, 2000)
    c.note('far', c.i, N)
    least = list(range(N + 1))
    for p in range(2, int(N ** .5) + 1):
        if least[p] == p:
            for j in range(p * p, N + 1, p):
                if least[j] == j:
                    least[j] = p

    def split(n):
        F = {}
        while n > 1:
            p = least[n]
            F[p] = F.get(p, 0) + 1
            n //= p
        return F
    if c.i == 0:
        want = (n for n in range(2, N + 1) if least[n] == n)
        for n, p in zip(want, c.call(er.primes)):
            if n != p:
                c.fail('wrong prime', got=p, want=n)
            c.event('primes')
    elif c.i == 1:
        for n, (k, F) in zip(range(1, N + 1), c.call(er.factored_integers)):
            if k != n or dict(F) != split(n):
                c.fail('wrong factorization', n=n, got=(k, dict(F)))
            c.event('factorizations')
    elif c.i == 2:
        for n, k in zip(range(1, N + 1), c.call(er.moebius_sequence)):
            F = split(n).values()
            want = 0 if any(x > 1 for x in F) else (-1) ** len(F)
            if k != want:
                c.fail('wrong Moebius value', n=n, got=k)
            c.event('moebius')
        c.eq(c.call(er.moebius_function, n), k, 'wrong Moebius value', n=n)
    else:
        def easy(n):
            s = 1
            for p, x in sorted(split(n).items()):
                if p > s + 1:
                    return False
                s *= (p ** (x + 1) - 1) // (p - 1)
            return True
        want = (n for n in range(1, N + 1) if easy(n))
        for n, k in zip(want, c.call(er.practical_numbers)):
            if n != k:
                c.fail('wrong practical number', got=k, want=n)
            c.event('practical')
    c.nontrivial('far', N)


@C31.driver(24, 60)
def interleaved(c):
    """Several generators advance in a random interleaving."""
    rng = c.rng
    gs = [er.primes(), er.primes(), er.factored_integers(),
          er.factored_integers(), er.moebius_sequence(),
          er.practical_numbers(), er.practical_numbers()]
    pos = [0] * len(gs)
    P = [n for n in range(2, 4000) if factor(n).get(n) == 1]
    Q = [n for n in range(1, 1300) if practical(n)]
    w = [rng.random() ** 2 for _ in gs]
    for _ in range(900):
        i = rng.choices(range(len(gs)), w)[0]
        k = pos[i]
        x = next(gs[i])
        pos[i] += 1
        if i < 2 and k < len(P):
            c.event('primes')
            c.eq(x, P[k], 'wrong prime', k=k)
        elif 2 <= i < 4:
            c.event('factorizations')
            c.eq((x[0], dict(x[1])), (k + 1, factor(k + 1)),
                 'wrong factorization', k=k)
        elif i == 4:
            c.event('moebius')
            c.eq(x, mu(k + 1), 'wrong Moebius value', n=k + 1)
        elif i > 4 and k < len(Q):
            c.event('practical')
            c.eq(x, Q[k], 'wrong practical number', k=k)
    c.nontrivial('interleaving', c.i)


@C31.driver(40, 200)
def moebius(c):
    rng = c.rng
    for _ in range(100):
        n = rng.randint(1, rng.choice([30, 300, 3000]))
        c.event('moebius')
        c.eq(c.call(er.moebius_function, n), mu(n), 'wrong Moebius value',
             n=n)
        c.nontrivial('mu', n)
        m = rng.randint(1, 1200)
        c.eq(bool(c.call(er.is_practical_factorization, factor(m))),
             practical(m), 'wrong verdict on a practical number', n=m)
        F = factor(m)
        items = list(F.items())
        rng.shuffle(items)
        c.eq(bool(c.call(er.is_practical_factorization, dict(items))),
             practical(m), 'verdict depends on the order of factors', n=m)
        c.event('practical')


# ---------------------------------------------------------------------------
C32 = Prop(
    'C32',
    rule='alphabet sizes and lengths exhaustively within bounds, random '
         'strings, lists and tuples for factorisation, suffix and rotation, '
         'all against the definitions; non-trivial: distinct inputs of length '
         'at least 3',
    anchors=['pads/lyndon.py', 'pads/eratosthenes.py'],
    need={'lyndon_words': 3000, 'factorisations': 1000, 'de_bruijn': 10,
          'rotations': 800})


def is_lyndon(w):
    return len(w) > 0 and all(w < w[i:] + w[:i] for i in range(1, len(w)))


def lyndon_words(s, n):
    return [list(w) for w in itertools.product(range(s), repeat=n)
            if is_lyndon(w)]


PAIRS = [(s, n) for s in range(1, 8) for n in range(1, 13) if s ** n <= 5000]
PAIRS += [(s, n) for s in (8, 11, 13, 20, 40, 70) for n in (1, 2, 3)
          if s ** n <= 5000]


@C32.driver(len(PAIRS), len(PAIRS), fixed=True)
def generate_lyndon(c):
    s, n = PAIRS[c.i]
    if c.tier == 'quick' and s ** n > 2500:
        return
    c.note('s, n', s, n)
    by_len = {k: lyndon_words(s, k) for k in range(1, n + 1)}
    got = [list(w) for w in c.call(ly.LengthLimitedLyndonWords, s, n)]
    c.event('lyndon_words', len(got))
    c.eq(got, sorted(w for L in by_len.values() for w in L),
         'wrong Lyndon words up to a length', s=s, n=n)
    c.eq([list(w) for w in c.call(ly.LyndonWordsWithLength, s, n)],
         by_len[n], 'wrong Lyndon words of a length', s=s, n=n)
    c.eq(c.call(ly.CountLyndonWords, s, n), len(by_len[n]),
         'wrong number of Lyndon words', s=s, n=n)
    if s > 1:
        want = [[]]
        for k in range(1, n + 1):
            want += by_len[k]
        out = []
        for w in c.call(ly.LyndonWords, s):
            if len(out) >= len(want):
                break
            out.append(list(w))
        c.eq(out, want, 'wrong list of Lyndon words', s=s)
    D = list(c.call(ly.DeBruijnSequence, s, n))
    c.event('de_bruijn')
    c.eq(len(D), s ** n, 'wrong length of a De Bruijn sequence', s=s, n=n)
    E = D * (n // len(D) + 2)
    c.eq(len({tuple(E[i:i + n]) for i in range(len(D))}), s ** n,
         'De Bruijn sequence misses a word', s=s, n=n)
    c.check(set(D) <= set(range(s)), 'foreign symbol', s=s, n=n)
    c.eq(D, sum((w for w in got if n % len(w) == 0), []),
         'De Bruijn sequence is not the concatenation of Lyndon words', s=s,
         n=n)
    c.nontrivial(s, n)


@C32.driver(30, 200)
def count_lyndon(c):
    s, n = c.rng.randint(1, 9), c.rng.randint(0, 40)
    if c.i % 5 == 0:
        s, n = c.rng.randint(1, 300), c.rng.randint(30, 200)
    # count by Witt's recurrence: the sum over d | n of d L(d) is s^n
    L = {}
    for k in range(1, n + 1):
        L[k] = (s ** k - sum(d * L[d] for d in range(1, k)
                             if k % d == 0)) // k
    c.eq(c.call(ly.CountLyndonWords, s, n), L[n] if n else 1,
         'wrong number of Lyndon words', s=s, n=n)
    c.eq([list(w) for w in ly.LyndonWordsWithLength(s, 0)], [[]],
         'wrong Lyndon words of length zero')


def random_word(rng):
    k = rng.choice([1, 2, 2, 3, 5, 26])
    n = rng.randint(1, rng.choice([4, 10, 30]))
    w = [rng.randrange(k) for _ in range(n)]
    r = rng.random()
    if r < .2:
        w = w[:rng.randint(1, 4)] * rng.randint(1, 5)
    elif r < .3:
        w = sorted(w)
    elif r < .4:
        w = sorted(w, reverse=True)
    elif r < .5:
        w = (w * 3)[:rng.randint(1, 3 * n)]
    kind = rng.randrange(4)
    if kind == 0:
        return w
    if kind == 1:
        return tuple(w)
    if kind == 2:
        return ''.join(chr(97 + x) for x in w)
    return [(x, str(x)) for x in w]


@C32.driver(1500, 12000)
def factor_words(c):
    rng = c.rng
    w = random_word(rng)
    c.note('word', w)
    c.sample(w)
    n = len(w)
    parts = list(c.call(ly.ChenFoxLyndon, w))
    c.event('factorisations')
    join = parts[0]
    for p in parts[1:]:
        join = join + p
    c.eq(join, w, 'factors do not make up the word', parts=parts)
    for p in parts:
        c.check(is_lyndon(p), 'factor is not a Lyndon word', parts=parts)
    for p, q in zip(parts, parts[1:]):
        c.check(p >= q, 'factors increase', parts=parts)
    ends = list(itertools.accumulate(map(len, parts)))
    c.eq(list(c.call(ly.ChenFoxLyndonBreakpoints, w)), ends,
         'wrong breakpoints', w=w)
    c.eq(c.call(ly.SmallestSuffix, w), min(w[i:] for i in range(n)),
         'wrong smallest suffix', w=w)
    c.event('rotations')
    c.eq(c.call(ly.SmallestRotation, w),
         min(w[i:] + w[:i] for i in range(n)), 'wrong smallest rotation',
         w=w)
    c.eq(bool(c.call(ly.isLyndonWord, w)), is_lyndon(w),
         'wrong verdict on a Lyndon word', w=w)
    c.eq(bool(c.call(ly.isLyndonWord, w[:0])), True, 'empty word')
    c.eq(list(c.call(ly.ChenFoxLyndon, w[:0])), [], 'empty word')
    if n >= 3:
        c.nontrivial(repr(w))


# ---------------------------------------------------------------------------
C33 = Prop(
    'C33',
    rule='every n in range for every generator, with interleaved and '
         'abandoned generators; orders and sets against an independent '
         'recursive enumeration, conjugates against column counts; '
         'non-trivial: distinct partitions observed',
    anchors=['pads/integer_partitions.py'],
    need={'partitions': 10000, 'conjugates': 1000})


def parts_of(n, m=None):
    """Partitions of n with parts at most m, reverse lexicographic."""
    if m is None:
        m = n
    if n == 0:
        yield ()
        return
    for k in range(min(n, m), 0, -1):
        for p in parts_of(n - k, k):
            yield (k,) + p


@C33.driver(24, 34, fixed=True)
def all_partitions(c):
    n = c.i - 1
    c.note('n', n)
    want = list(parts_of(n)) if n >= 0 else []
    for f, w in ((ip.mckay, want), (ip.revlex_partitions, want),
                 (ip.lex_partitions, want[::-1]), (ip.partitions, want)):
        got = [tuple(p) for p in c.call(f, n)]
        c.event('partitions', len(got))
        c.eq(got, w, 'wrong partitions from ' + f.__name__, n=n)
    c.eq([tuple(p) for p in c.call(ip.binary_partitions, n)],
         [p for p in want if all(x & (x - 1) == 0 for x in p)],
         'wrong binary partitions', n=n)
    for L in range(0, n + 3):
        if n < 0:
            continue
        got = [tuple(p) for p in c.call(ip.fixed_length_partitions, n, L)]
        c.eq(sorted(got), sorted(p for p in want if len(p) == L),
             'wrong partitions of a fixed length', n=n, L=L)
        c.eq(got, sorted(got, key=lambda p: p[::-1]),
             'partitions of a fixed length are not in colexicographic order',
             n=n, L=L)
    if n <= 18:
        for p in want:
            q = c.call(ip.conjugate, list(p) if c.rng.random() < .5 else p)
            c.event('conjugates')
            c.eq(list(q), [sum(x > i for x in p) for i in
                           range(p[0] if p else 0)], 'wrong conjugate', p=p)
            c.nontrivial(p)
    c.sample(n)


def parts_lex(n, m=None):
    """Partitions of n with parts at most m, lexicographic."""
    if n == 0:
        yield ()
        return
    for k in range(1, min(n, n if m is None else m) + 1):
        if n - k <= k * (n - k):
            for p in parts_lex(n - k, k):
                yield (k,) + p


def descending(n, m=None):
    """The same as parts_of, without recursion."""
    p = [n]
    while True:
        yield tuple(p)
        ones = 0
        while p and p[-1] == 1:
            p.pop()
            ones += 1
        if not p:
            return
        k = p.pop() - 1
        rest = ones + 1 + k
        p += [k] * (rest // k) + [rest % k] * (rest % k > 0)


@C33.driver(30, 240)
def prefixes(c):
    """The first partitions of larger numbers."""
    rng = c.rng
    n = rng.choice([rng.randint(30, 80), rng.randint(60, 130),
                    rng.randint(100, 250)])
    m = rng.randint(50, 400)
    for f, g in ((ip.mckay, descending), (ip.revlex_partitions, descending),
                 (ip.partitions, descending), (ip.lex_partitions, parts_lex)):
        want = list(itertools.islice(g(n), m))
        got = [tuple(p) for p in itertools.islice(c.call(f, n), m)]
        c.event('partitions', len(got))
        c.eq(got, want, 'wrong first partitions from ' + f.__name__, n=n)
    # many parts, few of them above one
    n = rng.randint(20, 150)
    extra = rng.randint(0, 12)
    if extra < n:
        L = n - extra
        got = [tuple(p) for p in c.call(ip.fixed_length_partitions, n, L)]
        want = sorted((tuple(x + 1 for x in p) + (1,) * (L - len(p))
                       for p in parts_of(extra) if len(p) <= L),
                      key=lambda p: p[::-1])
        c.event('partitions', len(got))
        c.eq(got, want, 'wrong partitions of a fixed length', n=n, L=L)
    # few parts of larger size
    n = rng.randint(20, 90)
    for L in (1, 2, 3):
        got = [tuple(p) for p in c.call(ip.fixed_length_partitions, n, L)]
        want = {1: [(n,)],
                2: [(n - b, b) for b in range(1, n // 2 + 1)],
                3: [(n - a - b, b, a) for a in range(1, n // 3 + 1)
                    for b in range(a, (n - a) // 2 + 1)]}[L]
        c.eq(got, want, 'wrong partitions of a fixed length', n=n, L=L)
    p = sorted((rng.randint(1, 60) for _ in range(rng.randint(1, 60))),
               reverse=True)
    c.eq(list(c.call(ip.conjugate, p)),
         [sum(x > i for x in p) for i in range(p[0])], 'wrong conjugate', p=p)
    c.event('conjugates')
    c.nontrivial('prefix', n, m, extra)


@C33.driver(12, 40)
def big_binary(c):
    """Partitions into powers of two for larger n, by count and order."""
    n = c.rng.randint(20, 70 if c.tier == 'quick' else 110)

    def count(n, k):
        if n == 0 or k == 0:
            return 1
        return sum(count(n - j * 2 ** k, k - 1)
                   for j in range(n // 2 ** k + 1))
    prev = None
    m = 0
    for p in c.call(ip.binary_partitions, n):
        t = tuple(p)
        m += 1
        c.check(sum(t) == n and all(x & (x - 1) == 0 and x > 0 for x in t),
                'not a binary partition', n=n, p=t)
        c.check(list(t) == sorted(t, reverse=True), 'not descending', p=t)
        c.check(prev is None or t < prev, 'out of order', p=t, prev=prev)
        prev = t
    c.event('partitions', m)
    c.eq(m, count(n, n.bit_length()), 'wrong number of binary partitions',
         n=n)
    c.nontrivial('binary', n)


@C33.driver(4, 8, fixed=True)
def all_large(c):
    """Every partition of a larger number."""
    n = c.rng.randint(42, 46) + (c.i >= 4) * 6
    f, g = ((ip.mckay, descending), (ip.revlex_partitions, descending),
            (ip.partitions, descending), (ip.lex_partitions, parts_lex))[
                c.i % 4]
    c.note('n', n, f.__name__)
    m = 0
    end = object()
    for p, q in itertools.zip_longest(c.call(f, n), g(n), fillvalue=end):
        if p is end or q is end or tuple(p) != q:
            c.fail('wrong partitions from ' + f.__name__, n=n,
                   got=None if p is end else tuple(p),
                   want=None if q is end else q)
        m += 1
    c.event('partitions', m)
    c.nontrivial('large', n, f.__name__)


@C33.driver(40, 300)
def interleaved_partitions(c):
    rng = c.rng
    fs = [ip.mckay, ip.revlex_partitions, ip.lex_partitions]
    runs = []
    for _ in range(5):
        f = rng.choice(fs)
        n = rng.randint(1, 9)
        w = list(parts_of(n))
        runs.append([f(n), w[::-1] if f is ip.lex_partitions else w, 0])
    for _ in range(rng.randint(20, 100)):
        r = rng.choice(runs)
        try:
            p = tuple(next(r[0]))
        except StopIteration:
            c.eq(r[2], len(r[1]), 'generator ended early')
            continue
        c.event('partitions')
        c.check(r[2] < len(r[1]) and p == r[1][r[2]], 'wrong partition in '
                'interleaved generators', p=p)
        r[2] += 1


# ---------------------------------------------------------------------------
C34 = Prop(
    'C34',
    rule='every order within bounds and arbitrary item sequences (equal, '
         'unhashable, unorderable items); sets of outputs, step kinds and '
         'first and last outputs against direct enumeration; non-trivial: '
         'distinct outputs observed',
    anchors=['pads/permutations.py'],
    need={'permutations': 3000, 'stirling': 1000, 'double': 1000,
          'involutions': 1000})


def swapped(p, q):
    return [i for i in range(len(p)) if p[i] != q[i]]


@C34.driver(60, 300)
def sjt(c):
    rng = c.rng
    n = c.i % 8 if c.i < 8 else rng.randint(0, 6)
    items = [[i] for i in range(n)]          # unhashable, told apart by id
    pos = {id(x): i for i, x in enumerate(items)}
    k = rng.randrange(3)
    if k == 0 and n:
        it = c.call(pm.SteinhausJohnsonTrotter, n)
        out = [tuple(p) for p in it]
    else:
        src = items if k == 1 else iter(items)
        out = [tuple(pos[id(x)] for x in p)
               for p in c.call(pm.SteinhausJohnsonTrotter, src, pure=False)]
    c.note('n', n)
    c.event('permutations', len(out))
    c.eq(out[0] if out else None, tuple(range(n)), 'does not start with the '
         'given order', n=n)
    c.eq(sorted(out), sorted(itertools.permutations(range(n))),
         'not all permutations, each once', n=n)
    for p, q in zip(out, out[1:]):
        d = swapped(p, q)
        c.check(len(d) == 2 and d[1] == d[0] + 1, 'step is not a swap of '
                'neighbours', p=p, q=q)
    p = list(range(n))
    seen = [tuple(p)]
    for x in c.call(pm.PlainChanges, n):
        p[x], p[x + 1] = p[x + 1], p[x]
        seen.append(tuple(p))
    c.eq(seen, out, 'list of changes disagrees', n=n)
    word = ''.join(rng.choice('ab') for _ in range(rng.randint(0, 5)))
    got = [''.join(p) for p in c.call(pm.SteinhausJohnsonTrotter, word)]
    c.eq(sorted(got), sorted(map(''.join, itertools.permutations(word))),
         'wrong permutations of a string', word=word)
    c.nontrivial(n, k, word)


@C34.driver(16, 160)
def sjt_far(c):
    """The first permutations of many items, against a direct rule: the
    largest item that may move in its direction does."""
    rng = c.rng
    n = rng.randint(8, 40)
    c.note('n', n)
    m = 4000 if c.tier == 'quick' else 20000
    p = list(range(n))
    at = list(range(n))
    way = [-1] * n
    changes = c.call(pm.PlainChanges, n)
    for got in itertools.islice(c.call(pm.SteinhausJohnsonTrotter, n), m):
        if list(got) != p:
            c.fail('wrong permutation of many items', n=n, got=list(got),
                   want=p)
        c.event('permutations')
        for x in range(n - 1, -1, -1):
            y = at[x] + way[x]
            if 0 <= y < n and p[y] < x:
                break
        i, j = sorted((at[x], y))
        c.eq(next(changes, None), i, 'wrong change of many items', n=n)
        a, b = p[i], p[j]
        p[i], p[j] = b, a
        at[a], at[b] = j, i
        for z in range(x + 1, n):
            way[z] = -way[z]
    c.nontrivial('far', n)


@C34.driver(24, 200)
def doubles_far(c):
    """Prefixes of the other generators for orders beyond listing all."""
    rng = c.rng
    k = c.i % 3
    n = rng.randint(70, 120) if c.i < 3 else rng.randint(10, 25)
    c.note('kind, n', k, n)
    f = (pm.StirlingPermutations, pm.DoubleSteinhausJohnsonTrotter,
         pm.Involutions)[k]
    seen = set()
    last = None
    for got in itertools.islice(c.call(f, n), 3000 if n < 50 else 600):
        p = tuple(got)
        c.event(('stirling', 'double', 'involutions')[k])
        if p in seen:
            c.fail('repeated output', n=n, p=p)
        seen.add(p)
        if k == 2:
            if sorted(p) != list(range(n)) or any(p[p[i]] != i
                                                  for i in range(n)):
                c.fail('not an involution', p=p)
            if last and not involution_step(last, p):
                c.fail('step between involutions is not elementary', p=last,
                       q=p)
        else:
            where = {}
            for i, x in enumerate(p):
                where.setdefault(x, []).append(i)
            if sorted(where) != list(range(n)) or any(
                    len(w) != 2 for w in where.values()):
                c.fail('not a double permutation', p=p)
            if k == 0 and any(min(p[a + 1:b], default=n) < x
                              for x, (a, b) in where.items()):
                c.fail('not a Stirling permutation', p=p)
            if last:
                d = swapped(last, p)
                if not (len(d) == 2 and d[1] == d[0] + 2 - k and
                        last[d[0]] == p[d[1]] and last[d[1]] == p[d[0]]):
                    c.fail('step is not a single swap', p=last, q=p)
        last = p
    c.eq(len(seen), 3000 if n < 50 else 600, 'generator ended early', n=n)
    c.nontrivial('far', k, n)


def involution_step(p, q):
    n = len(p)

    def pairs(p):
        return {(i, p[i]) for i in range(n) if i < p[i]}
    A, B = pairs(p) - pairs(q), pairs(q) - pairs(p)
    if len(A) + len(B) == 1:            # an adjacent pair appears or goes
        (i, j), = A | B
        return j == i + 1
    if len(A) == len(B) == 1:           # one target moves by one
        (a, b), (d, e) = A.pop(), B.pop()
        s, r = {a, b} - {d, e}, {d, e} - {a, b}
        return len(s) == 1 and len(r) == 1 and abs(s.pop() - r.pop()) == 1
    if len(A) == len(B) == 2:           # two adjacent targets trade places
        pts = sorted(x for e in A for x in e)
        return pts == sorted(x for e in B for x in e) and any(
            y == x + 1 and p[x] == q[y] and p[y] == q[x]
            for x, y in zip(pts, pts[1:]))
    return False


def matchings(L):
    if not L:
        yield ()
        return
    for i in range(1, len(L)):
        for m in matchings(L[1:i] + L[i + 1:]):
            yield ((L[0], L[i]),) + m


@C34.driver(12, 14, fixed=True)
def doubles(c):
    n = c.i // 2
    c.note('n', n)
    if c.i % 2:
        out = [tuple(p) for p in c.call(pm.StirlingPermutations, n)]
        c.event('stirling', len(out))
        step = 2
        for p in out:
            for v in range(n):
                i, j = [k for k in range(2 * n) if p[k] == v]
                c.check(all(x > v for x in p[i + 1:j]), 'not a Stirling '
                        'permutation', p=p)
    else:
        out = [tuple(p) for p in c.call(pm.DoubleSteinhausJohnsonTrotter, n)]
        c.event('double', len(out))
        step = 1
        want = set()
        for m in matchings(tuple(range(2 * n))):
            p = [None] * (2 * n)
            for k, (i, j) in enumerate(m):
                p[i] = p[j] = k
            want.add(tuple(p))
        c.eq(set(out), want, 'not all double permutations, up to renaming',
             n=n)
    count = 1
    for k in range(1, 2 * n, 2):
        count *= k
    c.eq(len(out), count, 'wrong number of double permutations', n=n)
    c.eq(len(set(out)), count, 'repeated output', n=n)
    c.eq(out[0], tuple(k // 2 for k in range(2 * n)), 'wrong first output',
         n=n)
    for p, q in zip(out, out[1:]):
        d = swapped(p, q)
        c.check(len(d) == 2 and d[1] == d[0] + step and p[d[0]] == q[d[1]]
                and p[d[1]] == q[d[0]], 'step is not a single swap', p=p,
                q=q)
        c.nontrivial(p)


@C34.driver(11, 12, fixed=True)
def involutions(c):
    n = c.i
    c.note('n', n)
    out = [tuple(p) for p in c.call(pm.Involutions, n)]
    c.event('involutions', len(out))
    t = [1, 1]
    while len(t) <= n:
        t.append(t[-1] + (len(t) - 1) * t[-2])
    c.eq(len(out), t[n], 'wrong number of involutions', n=n)
    c.eq(len(set(out)), t[n], 'repeated involution', n=n)
    for p in out:
        c.check(sorted(p) == list(range(n)) and all(
            p[p[i]] == i for i in range(n)), 'not an involution', p=p)
        c.nontrivial('inv', p)
    c.eq(out[0], tuple(range(n)), 'does not start with the identity', n=n)
    if n >= 2:
        c.eq(out[-1], tuple(range(n - 2)) + (n - 1, n - 2),
             'does not end by swapping the last two', n=n)
    for p, q in zip(out, out[1:]):
        c.check(involution_step(p, q), 'step between involutions is not '
                'elementary', p=p, q=q)


@C34.driver(30, 200)
def interleaved_permutations(c):
    """Generators for the same order do not disturb one another."""
    rng = c.rng
    fs = [pm.SteinhausJohnsonTrotter, pm.StirlingPermutations,
          pm.DoubleSteinhausJohnsonTrotter, pm.Involutions]
    runs = []
    for f in fs:
        n = rng.randint(2, 5)
        want = [tuple(p) for p in f(n)]
        runs += [[f(n), want, 0], [f(n), want, 0]]
    for _ in range(120):
        r = rng.choice(runs)
        try:
            p = tuple(next(r[0]))
        except StopIteration:
            c.eq(r[2], len(r[1]), 'generator ended early')
            continue
        c.event('permutations')
        c.check(r[2] < len(r[1]) and p == r[1][r[2]], 'interleaved '
                'generators disagree', p=p)
        r[2] += 1


# ---------------------------------------------------------------------------
C47 = Prop(
    'C47',
    rule='prefixes of the sequence of integer points, alone and with several '
         'generators interleaved, against all points of the disk; '
         'non-trivial: distinct points observed',
    anchors=['pads/integerpoints.py', 'pads/bucketqueue.py',
             'pads/sequence.py'],
    need={'points': 20000})


@C47.driver(10, 10, fixed=True)
def points(c):
    R = (5, 30, 60, 200, 120, 20, 1, 0, 45, 150)[c.i % 10]
    if c.tier != 'quick':
        R = R * 2 + 3
    c.note('radius', R)
    got = []
    last = 0
    for p in c.call(IntegerPointsByDistance):
        x, y = p
        d = x * x + y * y
        if d > R * R:
            break
        c.check(d >= last, 'points out of order', p=p)
        last = d
        got.append((x, y))
        c.event('points')
    want = {(x, y) for x in range(-R, R + 1) for y in range(-R, R + 1)
            if x * x + y * y <= R * R}
    c.eq(len(got), len(want), 'wrong number of points in a disk', R=R)
    c.eq(set(got), want, 'points of a disk are missing or repeated', R=R)
    for p in got:
        c.nontrivial(p)
    c.sample(R)


@C47.driver(6, 30)
def interleaved_points(c):
    rng = c.rng
    gs = [IntegerPointsByDistance() for _ in range(3)]
    seen = [[] for _ in gs]
    for _ in range(3000):
        i = rng.randrange(3)
        p = tuple(next(gs[i]))
        c.event('points')
        seen[i].append(p)
    for S in seen:
        c.eq(len(set(S)), len(S), 'point repeated')
        D = [x * x + y * y for x, y in S]
        c.eq(D, sorted(D), 'points out of order')
        r = D[-1]
        R = int(r ** .5) + 1
        inner = {(x, y) for x in range(-R, R + 1) for y in range(-R, R + 1)
                 if x * x + y * y < r}
        c.eq({p for p in S if p[0] ** 2 + p[1] ** 2 < r}, inner,
             'points missing')


PROPS = [C31, C32, C33, C34, C47]
