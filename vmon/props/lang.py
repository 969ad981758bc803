"""C29 regular languages, C30 minimisation, equality and conversion."""
import io
import itertools
from ..core import Prop
from .. import gens
from pads import automata as au

# ---------------------------------------------------------------------------
# independent model of regular expressions: nested tuples
#   ('sym', c) ('eps',) ('cat', a, b) ('alt', a, b) ('star', a)


def random_expr(rng, alphabet, size):
    if size <= 1:
        return ('eps',) if rng.random() < .08 else ('sym',
                                                    rng.choice(alphabet))
    r = rng.random()
    if r < .25:
        return ('star', random_expr(rng, alphabet, size - 1))
    k = rng.randint(1, size - 1)
    return ('alt' if r < .55 else 'cat', random_expr(rng, alphabet, k),
            random_expr(rng, alphabet, size - k))


def special(c):
    return c in '()+*\\'


def text(rng, e, level=0, last=True):
    """Write the expression; level 0 sum, 1 product, 2 starred.  Nothing at
    all may be written for the empty word at the end of a sum."""
    if e[0] == 'sym':
        s, own = ('\\' if special(e[1]) or rng.random() < .05 else '') + \
            e[1], 2
    elif e[0] == 'eps':
        if level == 0 and last and rng.random() < .4:
            return ''
        s, own = '()', 2
    elif e[0] == 'star':
        s, own = text(rng, e[1], 2) + '*', 1 if rng.random() < .5 else 2
    elif e[0] == 'cat':
        s, own = text(rng, e[1], 1) + text(rng, e[2], 1), 1
    else:
        wrap = level > 0 or rng.random() < .1
        s = text(rng, e[1], 0, False) + '+' + text(rng, e[2], 0,
                                                   wrap or last)
        return '(' + s + ')' if wrap else s
    if own < level or rng.random() < .1:
        s = '(' + s + ')'
    return s


def symbols(e):
    if e[0] == 'sym':
        return {e[1]}
    return set().union(*map(symbols, e[1:])) if len(e) > 1 else set()


def ends(e, s, i, memo):
    """All positions where a match of e starting at s[i] may end."""
    key = id(e), i
    if key in memo:
        return memo[key]
    if e[0] == 'sym':
        out = {i + 1} if i < len(s) and s[i] == e[1] else set()
    elif e[0] == 'eps':
        out = {i}
    elif e[0] == 'alt':
        out = ends(e[1], s, i, memo) | ends(e[2], s, i, memo)
    elif e[0] == 'cat':
        out = set()
        for j in ends(e[1], s, i, memo):
            out |= ends(e[2], s, j, memo)
    else:
        out = {i}
        todo = [i]
        while todo:
            for j in ends(e[1], s, todo.pop(), memo):
                if j not in out:
                    out.add(j)
                    todo.append(j)
    memo[key] = out
    return out


def matches(e, s):
    return len(s) in ends(e, s, 0, {})


def words(rng, alphabet, cap=150):
    """All short words over the alphabet and some longer ones."""
    A = sorted(alphabet)
    out = []
    for k in range(0, 8):
        if len(A) ** k > cap:
            break
        out += [''.join(w) for w in itertools.product(A, repeat=k)]
        if not A:
            break
    for _ in range(25):
        if A:
            out.append(''.join(rng.choice(A) for _ in
                               range(rng.randint(3, 14))))
    return out


ALPHABETS = ['a', 'ab', '01', 'abc', 'xyz', '(+', '*\\a', ')(', 'a b', 'éλ',
             'a.[', '+*', '|?']


def make(rng, alphabet=None, size=None):
    alphabet = alphabet or rng.choice(ALPHABETS)
    return random_expr(rng, alphabet, size or rng.randint(1, 9))


def on_alphabet(rng, alphabet):
    """An expression that mentions every symbol of the alphabet."""
    e = make(rng, alphabet)
    for a in alphabet:
        if a not in symbols(e):
            f = ('star', ('sym', a)) if rng.random() < .5 else ('sym', a)
            e = (rng.choice(['alt', 'cat']), f, e) if rng.random() < .5 else (
                rng.choice(['alt', 'cat']), e, f)
    return e


# ---------------------------------------------------------------------------
# explicit automata

class TableDFA(au.DFA):
    def __init__(self, alphabet, initial, table, final):
        self.alphabet = alphabet
        self.initial = initial
        self.table = table
        self.finals = final

    def transition(self, state, symbol):
        return self.table[state][symbol]

    def isfinal(self, state):
        return state in self.finals


def random_dfa(rng, n, alphabet, names=None):
    """Table of a DFA on states 0..n-1, and an automaton object for it."""
    table = [{a: rng.randrange(n) for a in alphabet} for _ in range(n)]
    if rng.random() < .4:           # duplicate a state, to be merged later
        i = rng.randrange(n)
        table.append(dict(table[i]))
        for row in table:
            for a in alphabet:
                if row[a] == i and rng.random() < .5:
                    row[a] = n
        final = {x for x in range(n) if rng.random() < .4}
        if i in final:
            final.add(n)
        n += 1
    else:
        final = {x for x in range(n) if rng.random() < .4}
    if rng.random() < .1:
        final = set() if rng.random() < .5 else set(range(n))
    names = gens.labels(rng, n)
    D = TableDFA(set(alphabet), names[0],
                 {names[i]: {a: names[table[i][a]] for a in alphabet}
                  for i in range(n)}, {names[i] for i in final})
    return table, final, D


def run_table(table, final, w):
    x = 0
    for a in w:
        x = table[x][a]
    return x in final


def moore(table, final, alphabet):
    """Number of states of the minimal automaton."""
    reach = {0}
    todo = [0]
    while todo:
        for y in table[todo.pop()].values():
            if y not in reach:
                reach.add(y)
                todo.append(y)
    cls = {x: x in final for x in reach}
    while True:
        sig = {x: (cls[x],) + tuple(cls[table[x][a]] for a in alphabet)
               for x in reach}
        if len(set(sig.values())) == len(set(cls.values())):
            return len(set(cls.values()))
        ids = {}
        cls = {x: ids.setdefault(sig[x], len(ids)) for x in reach}


def equivalent(t1, f1, t2, f2, alphabet):
    seen = {(0, 0)}
    todo = [(0, 0)]
    while todo:
        x, y = todo.pop()
        if (x in f1) != (y in f2):
            return False
        for a in alphabet:
            p = t1[x][a], t2[y][a]
            if p not in seen:
                seen.add(p)
                todo.append(p)
    return True


# ---------------------------------------------------------------------------
C29 = Prop(
    'C29',
    rule='random expressions (nested stars, empty alternatives, escaped '
         'operators, redundant parentheses) and random automata; membership '
         'of all short and some long words, and of the results of every '
         'language operation, against an independent matcher; non-trivial: '
         'distinct expressions accepting some and rejecting some words',
    anchors=['pads/automata.py'],
    need={'words': 20000, 'accepted': 2000, 'languages': 300,
          'rejections': 100})


@C29.driver(350, 4500)
def membership(c):
    rng = c.rng
    e = make(rng)
    s = text(rng, e)
    c.note('expression', s, e)
    c.sample(s)
    L = c.call(au.RegularLanguage, s)
    al = symbols(e)
    R = c.call(au.RegExp, s)
    c.eq(set(R.alphabet), al, 'wrong alphabet', expr=s)
    n = 0
    W = words(rng, al)
    for w in W:
        want = matches(e, w)
        n += want
        c.event('words')
        c.eq(bool(w in L), want, 'wrong membership', expr=s, word=w)
        c.eq(bool(R(w)), want, 'automaton disagrees', expr=s, word=w)
        if rng.random() < .1:
            c.eq(bool(list(w) in L), want, 'wrong membership of a list of '
                 'symbols', expr=s, word=w)
    c.event('accepted', n)
    c.event('languages')
    # the other views of the same automaton
    for view, X in (('DFA', c.call(R.asDFA)), ('NFA', c.call(R.asNFA)),
                    ('renumbered', c.call(R.renumber, rng.randint(-9, 9))),
                    ('NFA of DFA', R.asDFA().asNFA()),
                    ('complement', c.call(R.complement)),
                    ('minimal', c.call(R.minimize)),
                    ('reversed twice', R.reverse().reverse())):
        for w in rng.sample(W, min(25, len(W))):
            c.eq(bool(X(w)), matches(e, w) != (view == 'complement'),
                 'wrong answer by ' + view, expr=s, word=w)
    X = c.call(R.reverse)
    for w in rng.sample(W, min(25, len(W))):
        c.eq(bool(X(w[::-1])), matches(e, w), 'wrong reversal', expr=s,
             word=w)
    c.raises(au.LanguageError, lambda: (''.join(sorted(al)) + '\0') in L)
    if 0 < n < len(W):
        c.nontrivial(e)


def member(rng, e):
    """A random word of the language of the expression."""
    if e[0] == 'sym':
        return e[1]
    if e[0] == 'eps':
        return ''
    if e[0] == 'alt':
        return member(rng, e[rng.randint(1, 2)])
    if e[0] == 'cat':
        return member(rng, e[1]) + member(rng, e[2])
    out = ''
    while rng.random() < .5:
        out += member(rng, e[1])
    return out


def near_words(rng, e, al, k):
    """Words of the language, and such words slightly changed."""
    out = []
    for _ in range(k):
        w = list(member(rng, e))[:400]
        for _ in range(rng.choice([0, 0, 1, 2])):
            i = rng.randrange(len(w) + 1)
            w[i:i + rng.randint(0, 1)] = rng.sample(al, rng.randint(0, 1))
        out.append(''.join(w))
    return out


def long_expr(rng, al, parts):
    """A long product of small expressions, perhaps with branches."""
    e = make(rng, al, rng.randint(1, 3))
    for _ in range(parts):
        f = make(rng, al, rng.randint(1, 3))
        r = rng.random()
        if r < .1:
            e = ('alt', e, ('cat', f, long_expr(rng, al, rng.randint(0, 9))))
        elif r < .15:
            e = ('star', e)
        else:
            e = ('cat', e, f) if rng.random() < .8 else ('cat', f, e)
    return e


def views_of_large(c, R, e, al):
    rng = c.rng
    W = near_words(rng, e, sorted(al), 20)
    D = c.call(R.asDFA)
    views = [('NFA', R, 0, 0), ('DFA', D, 0, 0),
             ('NFA of DFA', c.call(D.asNFA), 0, 0),
             ('renumbered', c.call(R.renumber, rng.randint(-150, 100)), 0, 0),
             ('complement', c.call(R.complement), 1, 0),
             ('reversed', c.call(R.reverse), 0, 1),
             ('reversed twice', R.reverse().reverse(), 0, 0)]
    for w in W:
        want = matches(e, w)
        c.event('words')
        c.event('accepted', want)
        for name, X, neg, rev in views:
            c.eq(bool(X(w[::-1] if rev else w)), want != neg,
                 'wrong answer by ' + name, word=w)


@C29.driver(12, 150)
def membership_large(c):
    rng = c.rng
    al = rng.choice(['a', 'ab', 'abc', '(+', 'abcdefghijklmnopqrstuvwxyz'])
    e = long_expr(rng, al, rng.randint(10, 80))
    s = text(rng, e)
    c.note('expression', s)
    R = c.call(au.RegExp, s)
    c.eq(set(R.alphabet), symbols(e), 'wrong alphabet', expr=s)
    c.event('languages')
    views_of_large(c, R, e, symbols(e))
    c.nontrivial(s)


@C29.driver(6, 40)
def many_alive(c):
    """Words whose letter some way from the end is given: the automaton
    must follow many states at once."""
    rng = c.rng
    k = rng.randint(5, 80)
    al = rng.choice(['ab', 'ab', 'abc'])
    x = rng.choice(al)
    any_ = '(' + '+'.join(al) + ')'
    s = any_ + '*' + x + any_ * k
    c.note('expression', s)
    R = c.call(au.RegExp, s)
    L = c.call(R.language)
    other = [R.asDFA(), R.renumber(), R.complement().complement()]
    c.event('languages')
    for _ in range(25):
        w = [rng.choice(al) for _ in range(rng.randint(0, 3 * k))]
        if rng.random() < .5:
            w = [rng.choice([x, x, y]) for y in w]
        w = ''.join(w)
        want = len(w) > k and w[-1 - k] == x
        c.event('words')
        c.event('accepted', want)
        c.eq(w in L, want, 'wrong membership', word=w, expr=s)
        for D in other:
            c.eq(bool(D(w)), want, 'wrong answer of a converted automaton',
                 word=w, expr=s)
    c.nontrivial(s)


@C29.driver(300, 4000)
def algebra(c):
    rng = c.rng
    al = rng.choice(['a', 'ab', '01', 'abc', '(+', 'xy'])
    E = [on_alphabet(rng, al) for _ in range(3)]
    if rng.random() < .4:               # related languages
        E[1] = rng.choice([('alt', E[0], E[1]), ('alt', E[1], E[0]),
                           ('star', ('star', E[0])), E[0],
                           ('cat', E[0], ('star', E[0])),
                           ('cat', ('star', E[0]), E[0])])
    S = [text(rng, e) for e in E]
    c.note('expressions', S)
    c.sample(S)
    L = [c.call(au.RegularLanguage, s) for s in S]
    W = words(rng, al, 80)
    A, B, D = [{w for w in W if matches(e, w)} for e in E]
    U = set(W)
    combos = [
        ('and', L[0] & L[1], A & B), ('or', L[0] | L[1], A | B),
        ('xor', L[0] ^ L[1], A ^ B), ('not', ~L[0], U - A),
        ('nested', (L[0] | ~L[1]) & L[2], (A | (U - B)) & D),
        ('nested', ~(L[0] ^ L[2]) | L[1], (U - (A ^ D)) | B),
        ('nested', ~~L[1], B)]
    for name, X, want in combos:
        c.event('languages')
        for w in W:
            c.event('words')
            c.eq(bool(w in X), w in want, 'wrong membership after ' + name,
                 exprs=S, word=w)
            if w in want:
                c.event('accepted')
    # relations between languages, decided on the product of the derivative
    # automata built from the expressions
    T = [build_table(e, al) for e in E]
    for i, j in ((0, 1), (1, 0), (0, 2), (1, 2), (0, 0)):
        sub = included(T[i], T[j], al)
        sup = included(T[j], T[i], al)
        X, Y = L[i], L[j]
        got = (X <= Y, X >= Y, X < Y, X > Y, X == Y, X != Y)
        c.eq(tuple(map(bool, got)),
             (sub, sup, sub and not sup, sup and not sub, sub and sup,
              not (sub and sup)),
             'wrong relation between languages', left=S[i], right=S[j])
        c.eq(bool(X & ~Y), not sub, 'wrong emptiness', left=S[i], right=S[j])
    c.eq(bool(L[0]), any(T[0][1]), 'wrong emptiness', expr=S[0])
    c.eq(bool(L[0] & ~L[0]), False, 'contradiction not empty', expr=S[0])
    c.eq(bool(L[0] | ~L[0]), True, 'tautology is empty', expr=S[0])
    if len(A) and len(A) < len(U) and A != B:
        c.nontrivial(E[:2])
    if rng.random() < .3:
        other = au.RegularLanguage('q')
        for op in ('__and__', '__or__', '__xor__'):
            c.raises(au.LanguageError, getattr(L[0], op), other)
        c.eq(bool(L[0] == other), False, 'languages over different alphabets '
             'are equal', expr=S[0])


def closure_nfa(e):
    """Thompson automaton: (eps edges, symbol edges, start, end)."""
    eps, sym = [], []
    n = [0]

    def new():
        n[0] += 1
        return n[0] - 1

    def go(x):
        a, b = new(), new()
        if x[0] == 'sym':
            sym.append((a, x[1], b))
        elif x[0] == 'eps':
            eps.append((a, b))
        elif x[0] == 'alt':
            for y in x[1:]:
                p, q = go(y)
                eps.append((a, p))
                eps.append((q, b))
        elif x[0] == 'cat':
            p, q = go(x[1])
            r, s = go(x[2])
            eps.extend([(a, p), (q, r), (s, b)])
        else:
            p, q = go(x[1])
            eps.extend([(a, p), (q, p), (q, b), (a, b)])
        return a, b
    s, t = go(e)
    return n[0], eps, sym, s, t


def build_table(e, alphabet):
    """Deterministic table (rows, accepting flags) by subset construction."""
    n, eps, sym, s, t = closure_nfa(e)
    fwd = {}
    for a, b in eps:
        fwd.setdefault(a, []).append(b)

    def close(S):
        S = set(S)
        todo = list(S)
        while todo:
            for y in fwd.get(todo.pop(), ()):
                if y not in S:
                    S.add(y)
                    todo.append(y)
        return frozenset(S)
    start = close([s])
    ids = {start: 0}
    rows = []
    queue = [start]
    for S in queue:
        row = {}
        for a in alphabet:
            T = close([y for x, b, y in sym if b == a and x in S])
            if T not in ids:
                ids[T] = len(ids)
                queue.append(T)
            row[a] = ids[T]
        rows.append(row)
    return rows, [t in S for S in queue]


def included(T1, T2, alphabet):
    seen = {(0, 0)}
    todo = [(0, 0)]
    while todo:
        x, y = todo.pop()
        if T1[1][x] and not T2[1][y]:
            return False
        for a in alphabet:
            p = T1[0][x][a], T2[0][y][a]
            if p not in seen:
                seen.add(p)
                todo.append(p)
    return True


@C29.driver(120, 1500)
def explicit(c):
    """Automata given by tables rather than by expressions."""
    rng = c.rng
    al = rng.choice(['a', 'ab', 'abc'])
    t1, f1, D1 = random_dfa(rng, rng.randint(1, 6), al)
    t2, f2, D2 = random_dfa(rng, rng.randint(1, 5), al)
    c.note('tables', t1, f1, t2, f2)
    # a nondeterministic table
    n = rng.randint(1, 5)
    names = gens.labels(rng, n)
    tt = {(i, a): [j for j in range(n) if rng.random() < .3]
          for i in range(n) for a in al}
    init = [i for i in range(n) if rng.random() < .5]
    fin = [i for i in range(n) if rng.random() < .4]
    N = c.call(au.LookupNFA, set(al), [names[i] for i in init],
               {(names[i], a): [names[j] for j in tt[i, a]]
                for i, a in tt}, [names[i] for i in fin])

    def nfa(w):
        S = set(init)
        for a in w:
            S = {j for i in S for j in tt[i, a]}
        return bool(S & set(fin))
    X, Y, Z = [c.call(au.language, A) for A in (D1, D2, N)]
    W = words(rng, al, 60)
    for w in W:
        c.event('words')
        a, b, z = run_table(t1, f1, w), run_table(t2, f2, w), nfa(w)
        c.event('accepted', a + b + z)
        c.eq([bool(w in Q) for Q in (X, Y, Z)], [a, b, z],
             'wrong membership', word=w)
        c.eq(bool(w in X & Z), a and z, 'wrong intersection', word=w)
        c.eq(bool(w in Y | Z), b or z, 'wrong union', word=w)
        c.eq(bool(w in X ^ Y), a != b, 'wrong difference', word=w)
        c.eq(bool(w in ~Z), not z, 'wrong complement', word=w)
        c.eq(bool(N.reverse()(w[::-1])), z, 'wrong reversal', word=w)
        c.eq(bool(D1.reverse()(w[::-1])), a, 'wrong reversal', word=w)
    c.event('languages', 3)
    c.eq(bool(X == Y), equivalent(t1, f1, t2, f2, al), 'wrong equality')
    if len(t1) > 1:
        c.nontrivial(t1, sorted(f1))
    # reachable states
    reach = set(init)
    todo = list(init)
    while todo:
        x = todo.pop()
        for a in al:
            for y in tt[x, a]:
                if y not in reach:
                    reach.add(y)
                    todo.append(y)
    got = list(N.states())
    c.eq(len(got), len(set(got)), 'state listed twice')
    c.eq(set(got), {names[i] for i in reach}, 'wrong reachable states')
    c.eq(len(N), len(reach), 'wrong number of states')


@C29.driver(60, 500)
def malformed(c):
    rng = c.rng
    e = make(rng, 'ab')
    s = text(rng, e)
    k = rng.randrange(3)
    if k == 0:
        t = text(rng, make(rng, 'ab'))
        c.raises(au.LanguageError, au.RegularLanguage, rng.choice([
            '(' + s, s + '(' + t, '(' + s + '+(' + t + ')', '((' + s + ')',
            s + '(']))
    elif k == 1:
        t = text(rng, make(rng, 'ab'))
        c.raises(au.LanguageError, au.RegularLanguage, rng.choice([
            s + ')', s + ')' + t, '(' + s + '))', ')' + s,
            '(' + s + '))' + t, s + '+' + t + ')', ')']))
    else:
        c.raises(au.RegExpError, au.RegularLanguage, s + '\\')
    c.raises(au.LanguageError, au.RegularLanguage,
             rng.choice([5, None, ['a'], b'a']))
    L = au.RegularLanguage(s)
    for op in ('__and__', '__or__', '__xor__'):
        c.raises(au.LanguageError, getattr(L, op), 'a')
    other = rng.choice([5, None, s, L.recognizer])
    c.check(not L == other and L != other,
            'a language equals something else', expr=s, other=other)
    D = L.recognizer.minimize()
    c.check(not D == other and D != other,
            'an automaton equals something else', expr=s, other=other)


# ---------------------------------------------------------------------------
C30 = Prop(
    'C30',
    rule='random deterministic automata with planted equivalent and '
         'unreachable states, and expressions; minimal size against Moore '
         'refinement, equality against the product construction, rewritten '
         'expressions against the original on all short words; non-trivial: '
         'automata whose minimal form has at least 3 states',
    anchors=['pads/automata.py', 'pads/partition_refinement.py',
             'pads/sequence.py'],
    need={'minimised': 500, 'merged': 200, 'comparisons': 400,
          'equal': 100, 'rewritten': 200})


@C30.driver(3, 36)
def conversions_large(c):
    rng = c.rng
    al = rng.choice(['a', 'ab', 'abc', 'abcdefghijklmnopqrstuvwxyz'])
    e = long_expr(rng, al, rng.randint(30, 80))
    s = text(rng, e)
    c.note('expression', s)
    views_of_large(c, c.call(au.RegExp, s), e, symbols(e))
    c.nontrivial(s)


def counting_dfa(rng, n, al):
    """States on a long cycle or chain, so that few are equivalent."""
    table = []
    for i in range(n):
        row = {}
        for a in al:
            r = rng.random()
            row[a] = (i + 1) % n if r < .7 else i if r < .8 else \
                rng.randrange(n)
        table.append(row)
    k = rng.choice([n, n, max(1, n // 2), rng.randint(1, n)])
    if rng.random() < .5:
        table = [{a: (i + 1) % n for a in al} for i in range(n)]
    final = {i for i in range(n) if i % k == k - 1}
    names = gens.labels(rng, n)
    return table, final, TableDFA(
        set(al), names[0], {names[i]: {a: names[table[i][a]] for a in al}
                            for i in range(n)}, {names[i] for i in final})


@C30.driver(700, 9000)
def minimise(c):
    al = c.rng.choice(['a', 'ab', 'ab', 'abc', 'abcd'])
    check_minimal(c, al, *random_dfa(c.rng, c.rng.randint(1, 10), al))


@C30.driver(1, 12)
def minimise_large(c):
    al = c.rng.choice(['a', 'ab', 'abc'])
    check_minimal(c, al, *c.rng.choice([random_dfa, counting_dfa])(
        c.rng, c.rng.randint(20, 90), al))


@C30.driver(3, 16, fixed=True)
def minimise_huge(c):
    al = c.rng.choice(['ab', 'abc'])
    check_minimal(c, al, *(random_dfa, counting_dfa, random_dfa)[c.i % 3](
        c.rng, c.rng.randint(120, 350), al))


def check_minimal(c, al, table, final, D):
    rng = c.rng
    c.note('table', table, sorted(final))
    c.sample((table, sorted(final)))
    want = moore(table, final, al)
    M = c.call(D.minimize)
    c.event('minimised')
    c.eq(len(M), want, 'wrong number of states in the minimal automaton',
         table=table, final=final)
    c.eq(set(M.alphabet), set(al), 'wrong alphabet')
    if want < len(table):
        c.event('merged')
    for w in words(rng, al, 40):
        c.eq(bool(M(w)), run_table(table, final, w),
             'minimal automaton accepts another language', table=table,
             final=final, word=w)
    c.eq(len(c.call(M.minimize)), want, 'minimising twice differs')
    if want >= 3:
        c.nontrivial(table, sorted(final))
    # equality with a disguised copy, and with a near copy
    n = len(table)
    perm = list(range(n))
    rng.shuffle(perm)
    names = gens.labels(rng, n)
    t2 = [dict(r) for r in table]
    f2 = set(final)
    if rng.random() < .5:
        i = rng.randrange(n)
        if rng.random() < .5:
            f2 ^= {i}
        else:
            t2[i][rng.choice(al)] = rng.randrange(n)
    D2 = TableDFA(set(al), names[perm[0]],
                  {names[perm[i]]: {a: names[perm[t2[i][a]]] for a in al}
                   for i in range(n)}, {names[perm[i]] for i in f2})
    same = equivalent(table, final, t2, f2, al)
    c.event('comparisons')
    c.event('equal', same)
    M2 = c.call(D2.minimize)
    c.eq(bool(M == M2), same, 'wrong equality of minimal automata',
         table=table, final=final, t2=t2, f2=f2)
    c.eq(bool(M != M2), not same, 'wrong inequality')
    c.eq(bool(au.language(D) == au.language(D2)), same,
         'wrong equality of languages', table=table, final=final, t2=t2,
         f2=f2)
    c.eq(bool(D == D2), isomorphic(table, final, t2, f2, al),
         'wrong equality of automata', table=table, final=final, t2=t2,
         f2=f2)
    wide = TableDFA(set(al) | {'new'}, 0,
                    [dict(r, new=i) for i, r in enumerate(table)], final)
    c.check(not (M == wide.minimize()), 'equal over different alphabets')


def isomorphic(t1, f1, t2, f2, alphabet):
    m = {0: 0}
    back = {0: 0}
    todo = [0]
    while todo:
        x = todo.pop()
        y = m[x]
        if (x in f1) != (y in f2):
            return False
        for a in alphabet:
            p, q = t1[x][a], t2[y][a]
            if p not in m and q not in back:
                m[p] = q
                back[q] = p
                todo.append(p)
            elif m.get(p, -1) != q:
                return False
    return True


@C30.driver(250, 3000)
def rewrite(c):
    rng = c.rng
    if rng.random() < .6:
        al = rng.choice(ALPHABETS)
        e = make(rng, al, rng.randint(1, 7))
        s = text(rng, e)
        A = au.RegExp(s)
        if rng.random() < .4:
            A = rng.choice([A.asDFA, A.minimize, A.renumber])()

        def want(w):
            return matches(e, w)
        al = symbols(e)
        c.note('expression', s)
    else:
        al = rng.choice(['a', 'ab', '01', '+*', '(\\'])
        table, final, A = random_dfa(rng, rng.randint(1, 4), al)
        c.note('table', table, final)

        def want(w):
            return run_table(table, final, w)
    W = words(rng, al, 60)
    if moore_empty(A):
        return
    back = c.call(A.RegExp)
    c.event('rewritten')
    L = c.call(au.RegularLanguage, back)
    R = au.RegExp(back)
    c.sample(back)
    c.check(set(R.alphabet) <= set(al), 'expression uses other symbols',
            back=back)
    n = 0
    for w in W:
        x = want(w)
        n += x
        if set(w) <= set(R.alphabet):
            c.eq(bool(w in L), x, 'rewritten expression matches another '
                 'language', back=back, word=w)
        else:
            c.eq(x, False, 'rewritten expression lost a symbol', back=back,
                 word=w)
    if n:
        c.nontrivial('rewrite', back)
    # printed form: one line per state, one per transition
    out = io.StringIO()
    c.call(A.pprint, out, pure=False)
    lines = out.getvalue().splitlines()
    N = A.asNFA()
    S = list(N.states())
    arrows = sum(len(N.transition(x, a)) for x in S for a in N.alphabet)
    c.eq(sum(x.startswith('  --[') for x in lines), arrows,
         'wrong number of printed transitions')
    heads = [x for x in lines if not x.startswith('  --[')]
    c.eq(len(heads), len(S), 'wrong number of printed states')
    c.eq(sum('initial' in x.rpartition(' (')[2] for x in heads),
         len(set(N.initial)), 'wrong number of initial states printed')
    c.eq(sum('accepting' in x.rpartition(' (')[2] for x in heads),
         sum(bool(N.isfinal(x)) for x in S), 'wrong number of accepting '
         'states printed')


@C30.driver(60, 600)
def printing(c):
    """The printed form, state by state, also of states that look alike."""
    rng = c.rng
    al = rng.choice(['a', 'ab', 'abc'])
    n = rng.choice([1, 2, 3, 5, 8, 20])
    names = rng.choice([
        list(range(n)), [(i // 2, str(i // 2))[i % 2] for i in range(n)],
        ['q%d' % i for i in range(n)], [None, 'None', 0, '0', False and 0,
                                        '', -1, '-1'][:n]])
    names = list(dict.fromkeys(names))
    n = len(names)
    p = rng.choice([.1, .3, .7])
    tt = {(x, a): [y for y in names if rng.random() < p]
          for x in names for a in al}
    init = rng.sample(names, rng.randint(1, n))
    fin = rng.sample(names, rng.randint(0, n))
    N = c.call(au.LookupNFA, set(al), init, tt, fin)
    if rng.random() < .3:
        N = c.call(N.renumber, rng.randint(-9, 9))
        c.eq(len(set(N.states())), len(list(N.states())), 'state repeated')
        tt = {(x, a): list(N.transition(x, a)) for x in N.states()
              for a in al}
        init = list(N.initial)
        fin = [x for x in N.states() if N.isfinal(x)]
    c.note('automaton', tt, init, fin)
    seen = set(init)
    todo = list(init)
    while todo:
        x = todo.pop()
        for a in al:
            for y in tt[x, a]:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
    out = io.StringIO()
    c.call(N.pprint, out, pure=False)
    got = []
    for line in out.getvalue().split('\n')[:-1]:
        if line.startswith('  --['):
            c.check(got, 'transition before the first state', line=line)
            got[-1][1].append(line[2:])
        else:
            head, _, rest = line.partition(' (')
            got.append(((head, 'initial' in rest, 'accepting' in rest), []))
    c.eq(sorted((h, sorted(t)) for h, t in got),
         sorted(((str(x), x in init, x in fin),
                 sorted('--[%s]--> %s' % (a, y) for a in al
                        for y in tt[x, a])) for x in seen),
         'wrong printed form', automaton=tt)
    c.event('printed')


def moore_empty(A):
    N = A.asNFA()
    return not any(N.isfinal(x) for x in N.states())


PROPS = [C29, C30]
