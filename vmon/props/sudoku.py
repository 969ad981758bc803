"""C50 solutions, C51 soundness of deductions, C52 closure of deductions,
C53 generated and permuted puzzles, C54 puzzle formats and the command line,
C55 grid bookkeeping."""
import contextlib
import io
import random
import re
import runpy
import sys
import warnings
from html.parser import HTMLParser
from xml.etree import ElementTree

from ..core import Prop, take
from .. import sudoku_model as M
from pads import sudoku as S
from pads.sudoku import Sudoku, BadSudoku

FILES = ['pads/sudoku.py']


def puzzle(c, kinds='uuum'):
    """A random puzzle: (digits, has unique solution)."""
    rng = c.rng
    C = M.corpus()
    tag = rng.choice(sorted(C))
    unique, p = rng.choice(C[tag])
    p = M.shuffled(rng, p)
    if rng.choice(kinds) == 'm':
        unique = False
        for x in rng.sample([x for x in range(81) if p[x]],
                            rng.randint(1, 3)):
            p[x] = 0
    return p, unique


def forms(rng, p):
    """The puzzle in one of the accepted input forms."""
    k = rng.randrange(6)
    if k == 0:
        return list(p)
    if k == 1:
        return tuple(p)
    if k == 2:
        return ''.join(map(str, p))
    if k == 3:
        return (x for x in p)
    pairs = [(d, x) for x, d in enumerate(p) if d]
    rng.shuffle(pairs)
    if k == 4:
        return pairs
    return Sudoku(p)


def candidates(g):
    return [frozenset(g.choices(x)) for x in range(81)]


def state(g):
    return list(g.contents), candidates(g)


# ---------------------------------------------------------------------------

C50 = Prop(
    'C50', 'Puzzles made by re-arranging a corpus of minimal puzzles and by '
    'removing or adding clues, with none, one or several solutions, some with '
    'excluded placements; the solutions produced are compared with those of '
    'an independent solver.  Non-trivial: the puzzle has at least one '
    'solution and 20 empty cells.',
    FILES, need={'one solution': 20, 'several solutions': 20,
                 'no solution': 10, 'excluded': 10})


def expected(c, cand, limit=40):
    if c.i % 40 == 3:
        limit = 300
    sols = M.solve(cand, limit)
    return sols if len(sols) < limit else None


def compare(c, g, want, fast, p):
    out = []
    for s in c.call(S.all_solutions, g, fast, pure=False):
        out.append((s, tuple(s.contents)))
        c.check(len(out) <= len(want), 'too many solutions', p=p,
                got=out[-1][1], want=len(want))
        c.check(s.complete(), 'unfinished solution', p=p)
    got = [x for _, x in out]
    c.eq(sorted(got), sorted(want), 'wrong solutions', p=p, fast=fast)
    for s, x in out:
        c.eq(tuple(s.contents), x, 'a solution changed afterwards', p=p)
    c.event({0: 'no solution', 1: 'one solution'}.get(
        len(want), 'several solutions'))


@C50.driver(260)
def solutions(c):
    rng = c.rng
    p, unique = puzzle(c, 'uum')
    if rng.random() < .35:
        blank = [x for x in range(81) if not p[x]]
        for _ in range(rng.randint(1, 2)):
            x = rng.choice(blank)
            ok = [d for d in range(1, 10)
                  if all(p[y] != d for y in M.PEERS[x])]
            if ok and not p[x]:
                p[x] = rng.choice(ok)
    want = expected(c, M.candidates(p))
    if want is None:
        c.event('too many solutions')
        return
    c.note('puzzle', p)
    fast = rng.random() < .7
    g = c.call(Sudoku, forms(rng, p), pure=False)
    c.eq(list(g.contents), p, 'puzzle read wrongly')
    if rng.random() < .2:
        g.twosat = True
    compare(c, g, want, fast, p)
    g = Sudoku(p)
    c.eq(bool(c.call(S.unisolvent, g, pure=False)), len(want) == 1,
         'wrong uniqueness', p=p)
    if want:
        c.nontrivial(tuple(p))
    c.sample(p)


@C50.driver(40)
def unsolvable_group(c):
    """Four digits confined to three cells of a line."""
    rng = c.rng
    p = [0] * 81
    p[2], p[5] = 8, 9
    for col in (1, 4, 7, 8):
        for d in (1, 2, 3, 4):
            ok = [x for x in range(col + 9, 81, 9)
                  if not p[x] and all(p[y] != d for y in M.PEERS[x])]
            if not ok:
                return
            p[rng.choice(ok)] = d
    p = M.shuffled(rng, p)
    fast = rng.random() < .3
    c.note('puzzle', p)
    got = take(c.call(S.all_solutions, Sudoku(p), fast, pure=False), 1)
    c.check(not got, 'solution of an unsolvable puzzle', p=p)
    c.event('no solution')


def restricted(p, cand):
    """A grid with some placements ruled out."""
    g = Sudoku(p)
    for x in range(81):
        for d in range(1, 10):
            if not p[x] and not cand[x] >> d - 1 & 1:
                g.unplace(d, 1 << x)
    return g


@C50.driver(130)
def excluded(c):
    """Placements ruled out beforehand stay ruled out."""
    rng = c.rng
    p, unique = puzzle(c, 'm')
    if rng.random() < .5:
        f = M.full(rng)
        keep = rng.sample(range(81), rng.randint(22, 28))
        p = [f[x] if x in keep else 0 for x in range(81)]
    some = M.solve(M.candidates(p), 6, rng)
    sol = some[0]
    g = Sudoku(p)
    cand = M.candidates(p)
    tries = rng.choice([3, 10, 40, 80])
    for _ in range(tries):
        x = rng.randrange(81)
        d = rng.choice(some)[x] if rng.random() < .6 else rng.randint(1, 9)
        if not p[x] and d != sol[x]:
            c.call(g.unplace, d, 1 << x, pure=False)
            cand[x] &= ~(1 << d - 1)
    want = expected(c, cand)
    if want is None:
        return
    c.note('puzzle', p, cand)
    h = restricted(p, cand)
    compare(c, g, want, rng.random() < .7, p)
    c.eq(bool(c.call(S.unisolvent, h, pure=False)), len(want) == 1,
         'wrong answer about uniqueness', p=p, cand=cand)
    c.event('excluded')
    c.nontrivial(tuple(p), tuple(cand))


@C50.driver(24)
def determined(c):
    """Few or no clues, the rest settled by excluded placements."""
    rng = c.rng
    f = M.full(rng)
    keep = rng.sample(range(81), rng.choice([0, 0, 1, 3, 8, 16]))
    p = [f[x] if x in keep else 0 for x in range(81)]
    g = Sudoku(p)
    cand = M.candidates(p)
    spare = rng.choice([0, 4, 12, 30])
    loose = set(rng.sample([x for x in range(81) if not p[x]], spare))
    for x in range(81):
        for d in range(1, 10):
            if not p[x] and d != f[x] and (
                    x not in loose or rng.random() < .6):
                c.call(g.unplace, d, 1 << x, pure=False)
                cand[x] &= ~(1 << d - 1)
    want = expected(c, cand)
    if want is None:
        return
    c.note('puzzle', p, cand)
    c.eq(bool(c.call(S.unisolvent, restricted(p, cand),
                     pure=False)), len(want) == 1,
         'wrong answer about uniqueness', p=p, cand=cand)
    compare(c, g, want, rng.random() < .7, p)
    c.event('excluded')
    c.nontrivial(tuple(p), tuple(cand))


@C50.driver(10)
def few_digits(c):
    """Some digits missing altogether: many solutions, all compared."""
    rng = c.rng
    f = M.full(rng)
    gone = rng.sample(range(1, 10), rng.randint(2, 4))
    p = [0 if d in gone and rng.random() < .93 else d for d in f]
    most = 1000 if c.i % 4 == 0 else 60
    want = M.solve(M.candidates(p), most)
    if len(want) >= most:
        return
    c.note('puzzle', p)
    compare(c, Sudoku(p), want, most == 1000 or rng.random() < .7, p)
    c.nontrivial(tuple(p))


@C50.driver(20)
def plenty(c):
    """Puzzles with very many solutions: the first ones are distinct
    solutions."""
    rng = c.rng
    f = M.full(rng)
    keep = rng.sample(range(81), rng.choice([0, 5, 10, 15, 18]))
    p = [f[x] if x in keep else 0 for x in range(81)]
    c.note('puzzle', p)
    n = rng.randint(2, 12)
    if c.i % 12 == 5:
        n = rng.randint(300, 1200)
    got = take(c.call(S.all_solutions, Sudoku(p), pure=False), n)
    got = [tuple(s.contents) for s in got]
    for s in got:
        c.check(M.solved(p, s), 'not a solution', p=p, got=s)
    c.eq(len(set(got)), len(got), 'repeated solution', p=p)
    if len(got) < n:
        c.eq(len(M.solve(M.candidates(p), n)), len(got), 'too few solutions',
             p=p)
    if n > 1 and len(got) > 1:
        c.check(not c.call(S.unisolvent, Sudoku(p), pure=False),
                'wrong uniqueness', p=p)


# ---------------------------------------------------------------------------

C51 = Prop(
    'C51', 'Solver steps, and single deduction rules in their documented '
    'order, on re-arranged puzzles with a known set of solutions, some with '
    'extra (true or contradictory) exclusions, logging on or off; after '
    'every step the candidates must still allow every solution.  '
    'Non-trivial: at least three steps made progress.',
    FILES, need={'progress': 300, 'logged': 20, 'contradictions': 5})

ORDER = ['locate', 'eliminate', 'align', 'pair', 'triad', 'trapezoid',
         'rectangle', 'subproblem', 'nishio', 'bilocal', 'bivalue', 'repeat',
         'path', 'conflict', 'twosat']


def setting(c, kinds, exclude):
    rng = c.rng
    p, unique = puzzle(c, kinds)
    sols = M.solve(M.candidates(p), 12, rng)
    exact = len(sols) < 12
    g = Sudoku(p)
    cand = M.candidates(p)
    if rng.random() < exclude:
        bad = rng.random() < .4
        for _ in range(rng.choice([5, 30, 100])):
            x = rng.randrange(81)
            d = rng.randint(1, 9)
            if p[x] or (d == sols[0][x] and not (bad and rng.random() < .3)):
                continue
            g.unplace(d, 1 << x)
            cand[x] &= ~(1 << d - 1)
        sols = [s for s in sols
                if all(cand[x] >> s[x] - 1 & 1 for x in range(81))]
        if not sols and not exact:
            sols = M.solve(cand, 12, rng)
    g.assume_unique = unique and rng.random() < .7
    g.twosat = rng.random() < .4
    return p, g, cand, sols


def sound(c, g, before, sols, what, p):
    """Compare with the state before; True if something changed."""
    now = state(g)
    for x in range(81):
        c.check(now[1][x] <= before[1][x], 'a candidate came back', cell=x,
                what=what, p=p)
        if before[0][x]:
            c.eq(now[0][x], before[0][x], 'a filled cell changed', cell=x,
                 what=what, p=p)
        if now[0][x]:
            c.check(now[1][x] <= {now[0][x]}, 'filled cell has choices',
                    cell=x, what=what, p=p)
    for s in sols:
        for x in range(81):
            c.check(s[x] in now[1][x], 'a deduction removed a solution',
                    cell=x, digit=s[x], what=what, p=p)
            if now[0][x]:
                c.eq(now[0][x], s[x], 'wrong digit placed', cell=x,
                     what=what, p=p)
    return now, now != before


@C51.driver(220)
def steps(c):
    rng = c.rng
    p, g, cand, sols = setting(c, 'uuum', .4)
    log = None
    if rng.random() < .6:
        log = g.logstream = io.StringIO()
        c.event('logged')
    quick = rng.random() < .15
    c.note('puzzle', p, cand, g.assume_unique, g.twosat)
    now = state(g)
    n = 0
    while True:
        used = set(g.rules_used)
        try:
            more = S.step(g, quick)
        except BadSudoku:
            c.check(not sols, 'solvable puzzle rejected', p=p, cand=cand)
            c.event('contradictions')
            break
        except Exception as e:
            c.fail('unexpected %s' % type(e).__name__, error=str(e), p=p,
                   cand=cand)
        fired = sorted(set(g.rules_used) - used)
        for r in fired:
            c.event('rule ' + str(r))
        now, changed = sound(c, g, now, sols, fired, p)
        c.eq(bool(more), changed, 'wrong progress report', p=p, n=n)
        if not more:
            break
        n += 1
        c.event('progress')
        c.check(n < 800, 'too many steps')
    if log is not None:
        c.check(log.getvalue().strip() or g.complete() and n == 0,
                'nothing logged', p=p)
    c.check(not g.complete() or M.solved(p, g.contents) or not sols,
            'wrong completion', p=p)
    if n >= 3:
        c.nontrivial(tuple(p), tuple(cand))


@C51.driver(320)
def rules_apart(c):
    """Some of the rules only, so that the rarer ones have more to do."""
    rng = c.rng
    p, g, cand, sols = setting(c, 'uuum', .4)
    want = set(rng.sample(ORDER, rng.randint(1, 4)))
    if want & {'bilocal', 'repeat', 'path', 'conflict'}:
        want |= {'pair', 'bilocal', 'bivalue'}
    if 'twosat' in want:
        want |= {'locate', 'eliminate'}
        g.twosat = True
    if rng.random() < .5:
        g.logstream = io.StringIO()
        c.event('logged')
    c.note('puzzle', p, cand, sorted(want), g.assume_unique)
    now = state(g)
    n = 0
    again = True
    while again and n < 200 and not g.complete():
        again = False
        g.progress = False
        for name in ORDER:
            if name not in want:
                continue
            try:
                getattr(S, name)(g)
            except BadSudoku:
                c.check(not sols, 'solvable puzzle rejected', p=p, cand=cand,
                        rule=name)
                c.event('contradictions')
                return
            except Exception as e:
                c.fail('unexpected %s in %s' % (type(e).__name__, name),
                       error=str(e), p=p, cand=cand)
            now, changed = sound(c, g, now, sols, name, p)
            if changed:
                c.event('progress')
                c.event('rule ' + name)
                again = True
                n += 1
                break
    if n >= 3:
        c.nontrivial(tuple(p), tuple(cand), tuple(sorted(want)))


def confined(rng, name):
    """Digits confined to two places and cells confined to two digits, at
    random, in agreement with a solution."""
    f = M.full(rng)
    keep = set(rng.sample(range(81), rng.choice([1, 3, 5, 12, 20, 30])))
    p = [f[x] if x in keep else 0 for x in range(81)]
    g = Sudoku(p)

    def confine(group, d, cells):
        """Keep a digit to some cells of a group."""
        g.unplace(d, sum(1 << y for y in group
                         if y not in cells and f[y] != d))

    def common(x, y):
        return [k for k in M.GROUPS if x in k and y in k]
    if name in ('bivalue', 'repeat', 'path', 'conflict') and \
            rng.random() < .6:
        digs = rng.sample(range(1, 10), rng.randint(3, 5))
        cells = [x for x in range(81) if f[x] in digs and not p[x]]
        for x in rng.sample(cells, min(len(cells), rng.randint(4, 14))):
            e = rng.choice([d for d in digs if d != f[x]])
            for d in range(1, 10):
                if d not in (e, f[x]):
                    g.unplace(d, 1 << x)
    elif name in ('bilocal', 'repeat', 'path', 'conflict'):
        n = rng.randint(3, 7)
        cells = [rng.randrange(81)]
        for _ in range(60):
            if len(cells) == n and cells[0] in M.PEERSET[cells[-1]]:
                break
            if len(cells) == n:
                cells = cells[:1]
            cells.append(rng.choice([y for y in M.PEERS[cells[-1]]
                                     if y not in cells]))
        for x, y in zip(cells, cells[1:] + cells[:1]):
            for k in common(x, y)[:1]:
                d = f[rng.choice((x, y))]
                confine(k, d, (x, y))
    elif name in ('trapezoid', 'rectangle'):
        r1, r2 = rng.sample(range(9), 2)
        c1, c2 = rng.sample(range(9), 2)
        if r1 // 3 != r2 // 3 and c1 // 3 != c2 // 3:
            r2 = r1 // 3 * 3 + (r1 + 1) % 3
        if r1 // 3 == r2 // 3 and c1 // 3 == c2 // 3:
            c2 = (c2 + 3) % 9
        box = [9 * r + k for r in (r1, r2) for k in (c1, c2)]
        digs = list({f[x] for x in box} | {rng.randint(1, 9)})[:5]
        for d in rng.sample(range(1, 10), rng.randint(5, 9)):
            for x in rng.sample(box, rng.randint(2, 4)):
                if f[x] != d and (d not in digs or rng.random() < .2):
                    g.unplace(d, 1 << x)
        two = [k for k in M.SQUARES if set(k) & set(box)]
        for d in digs[:rng.randint(0, 3)]:
            for k in two:
                extra = [rng.choice(k)] if rng.random() < .4 else []
                confine(k, d, box + extra)
        for d in digs[:rng.randint(0, 2)]:
            x, y = rng.sample(box, 2)
            for k in common(x, y)[:1]:
                confine(k, d, (x, y))
    else:
        for _ in range(rng.choice([1, 1, 2, 4])):
            k = rng.choice(M.GROUPS)
            m = rng.randint(1, 4)
            digs = rng.sample(range(1, 10), m)
            cells = [y for y in k if f[y] in digs]
            j = rng.choice(M.GROUPS)
            if rng.random() < .5 and set(j) & set(k):
                cells += [y for y in k if y in j]
            for d in digs:
                confine(k, d, cells)
            if rng.random() < .3:
                for y in cells:
                    for d in range(1, 10):
                        if d not in digs and d != f[y]:
                            g.unplace(d, 1 << y)
    g.assume_unique = name in ('trapezoid', 'rectangle')
    seq = {'bilocal': ['pair', 'bilocal']}.get(name, [name])
    if name in ('repeat', 'path', 'conflict'):
        seq = ['pair', 'bilocal', 'bivalue', name]
    if rng.random() < .3 and not g.assume_unique:
        seq = ['locate', 'eliminate'] + seq
    return p, f, g, seq


@C51.driver(160)
def planted_sound(c):
    """Artificial positions with a known solution."""
    rng = c.rng
    name = rng.choice([r for r in ORDER if r not in ('trapezoid',
                                                     'rectangle')])
    p, f, g, seq = confined(rng, name)
    g.twosat = True
    if name == 'twosat':
        seq = rng.choice([['locate', 'eliminate', 'align', 'pair', name],
                          ['pair', name], [name], [name]])
    if rng.random() < .6:
        g.logstream = io.StringIO()
        c.event('logged')
    now = state(g)
    c.note('position', p, seq, now[1])
    for n in range(60):
        g.progress = False
        for r in seq:
            try:
                getattr(S, r)(g)
            except Exception as e:
                c.fail('unexpected %s in %s' % (type(e).__name__, r),
                       error=str(e), p=p, cand=now[1])
            now, changed = sound(c, g, now, [f], r, p)
            c.eq(bool(g.progress), changed, 'wrong progress flag', rule=r,
                 p=p)
            if changed:
                c.event('progress')
                c.event('rule ' + r)
                break
        else:
            break
    if n >= 3:
        c.nontrivial(tuple(p), tuple(f), name)


@C51.driver(25)
def silent_or_not(c):
    """Logging does not change what is deduced."""
    rng = c.rng
    p, unique = puzzle(c)
    u, t = unique and rng.random() < .7, rng.random() < .4
    res = []
    for log in (None, io.StringIO()):
        g = Sudoku(p)
        g.assume_unique, g.twosat = u, t
        if log is not None:
            g.logstream = log
            c.event('logged')
        trace = []
        while c.call(S.step, g, pure=False):
            trace.append(state(g))
        res.append(trace)
    c.eq(res[0], res[1], 'logging changed the deductions', p=p)


# ---------------------------------------------------------------------------

C52 = Prop(
    'C52', 'Solver runs on re-arranged puzzles until no step makes progress, '
    'and single rules repeated until nothing changes; the remaining '
    'candidates are searched by brute force for deductions of the documented '
    'kinds.  Non-trivial: the run ended with at least 20 unfilled cells.',
    FILES, need={'stuck': 60, 'alone': 40})


@C52.driver(320)
def stuck(c):
    rng = c.rng
    p, unique = puzzle(c, 'um')
    g = Sudoku(p)
    g.assume_unique = unique and rng.random() < .7
    g.twosat = rng.random() < .15
    quick = rng.random() < .55
    c.note('puzzle', p, g.assume_unique, quick)
    while c.call(S.step, g, quick, pure=False):
        pass
    if g.complete():
        return
    cand = candidates(g)
    c.event('stuck')
    clues = {x for x in range(81) if p[x]}
    for x in range(81):
        c.check(bool(g.contents[x]) == (len(cand[x]) == 1),
                'cell with a single choice left empty', cell=x, p=p)
    for what in M.open_deductions(cand, clues, g.assume_unique, quick):
        c.fail('deduction missed', what=what, p=p, quick=quick)
    if sum(1 for x in range(81) if not g.contents[x]) >= 20:
        c.nontrivial(tuple(p))


@C52.driver(420)
def alone(c):
    rng = c.rng
    p, unique = puzzle(c, 'um')
    name = rng.choice(ORDER[:-1])
    if name in ('trapezoid', 'rectangle') and not unique:
        name = rng.choice(['pair', 'align', 'triad'])
    g = Sudoku(p)
    g.assume_unique = True
    seq = {'bilocal': ['pair', 'bilocal']}.get(name, [name])
    if name in ('repeat', 'path', 'conflict'):
        seq = ['pair', 'bilocal', 'bivalue', name]
    if rng.random() < .7:
        seq = ['locate', 'eliminate'] + seq
    if rng.random() < .3:
        # further true exclusions
        sol = M.solve(M.candidates(p), 1)[0]
        for _ in range(rng.choice([5, 30, 100])):
            x, d = rng.randrange(81), rng.randint(1, 9)
            if not p[x] and sol[x] != d:
                g.unplace(d, 1 << x)
    repeated(c, g, p, name, seq)


def repeated(c, g, p, name, seq):
    """Apply a rule until nothing changes, then look for what it missed."""
    c.note('puzzle', p, seq, candidates(g))
    for _ in range(500):
        before = state(g)
        g.progress = False
        for r in seq:
            c.call(getattr(S, r), g, pure=False)
            if state(g) != before:
                break
        else:
            break
    else:
        c.fail('endless changes', p=p, seq=seq)
    c.event('alone')
    c.event('rule ' + name)
    cand = candidates(g)
    clues = {x for x in range(81) if p[x]}
    if name == 'eliminate':
        for x in range(81):
            c.check(len(cand[x]) > 1 or g.contents[x], 'deduction missed',
                    what=('eliminate', x), p=p)
    if name == 'locate':
        for k in M.GROUPS:
            for d in range(1, 10):
                w = [x for x in k if d in cand[x]]
                c.check(len(w) > 1 or g.contents[w[0]] == d,
                        'deduction missed', what=('locate', w, d), p=p)
    else:
        for what in M.open_deductions(
                cand, clues, name in ('trapezoid', 'rectangle'), False):
            if what[0].split()[0] == name:
                c.fail('deduction missed', what=what, p=p, seq=seq)
    if sum(1 for x in range(81) if not g.contents[x]) >= 20:
        c.nontrivial(tuple(p), name)


@C52.driver(500)
def planted(c):
    name = c.rng.choice(ORDER[:-1] + ['bilocal', 'bivalue', 'repeat', 'path',
                                      'conflict', 'repeat'])
    p, f, g, seq = confined(c.rng, name)
    repeated(c, g, p, name, seq)


@C52.driver(162)
def everywhere(c):
    """A cycle of two-place digits through every cell in turn, without
    repetition or with one at that cell."""
    rng = c.rng
    x0 = c.i % 81
    f = M.full(rng)
    again = rng.random() < .6
    for _ in range(400):
        n = rng.randint(3, 6)
        cells = [x0]
        while len(cells) < n:
            cells.append(rng.choice([y for y in M.PEERS[cells[-1]]
                                     if y not in cells]))
        if x0 not in M.PEERSET[cells[-1]]:
            continue
        pairs = list(zip(cells, cells[1:] + cells[:1]))
        labels = [f[rng.choice(e)] for e in pairs]
        if again:
            labels[0] = labels[-1] = f[x0]
        if again == (labels[0] == labels[-1]) and all(
                u != v for u, v in zip(labels, labels[1:])) and (
                len(set(labels)) == n - again or rng.random() < .01):
            used = [rng.choice([k for k in M.GROUPS if x in k and y in k])
                    for x, y in pairs]
            if len(set(map(tuple, used))) == n:
                break
    else:
        return
    far = [x for x in range(81) if x not in cells and f[x] not in labels]
    keep = rng.sample(far, rng.randint(1, 4))
    p = [f[x] if x in keep else 0 for x in range(81)]
    g = Sudoku(p)
    for (x, y), d, k in zip(pairs, labels, used):
        g.unplace(d, sum(1 << z for z in k if z not in (x, y)))
    name = 'repeat' if again else rng.choice(['bilocal', 'bilocal', 'path',
                                              'conflict'])
    seq = ['pair', 'bilocal'] if name == 'bilocal' else \
        ['pair', 'bilocal', 'bivalue', name]
    repeated(c, g, p, name, seq)
    if again:
        c.event('digit placed' if g.contents[x0] else 'not placed')


@C52.driver(150)
def trapezoids(c):
    """Two digits of two squares confined to four cells of a rectangle and
    one more cell, in every orientation."""
    rng = c.rng
    f = M.full(rng)
    turn = rng.random() < .5

    def at(r, k):
        return 9 * k + r if turn else 9 * r + k
    where = [(b, k, j, d, e) for b in range(3) for k in range(3)
             for j in range(3) if j != k
             for d in range(1, 10) for e in range(1, 10) if d != e]
    rng.shuffle(where)
    for b, k, j, d, e in where:
        rows = range(3 * b, 3 * b + 3)
        s1 = {f[at(r, x)]: (r, x) for r in rows
              for x in range(3 * k, 3 * k + 3)}
        s2 = {f[at(r, x)]: (r, x) for r in rows
              for x in range(3 * j, 3 * j + 3)}
        (r1, c2), (r2, c3) = s2[d], s2[e]
        if c2 == c3 and s1[d][0] == r2 and (
                s1[e][0] == r1 or rng.random() < .1):
            break
    else:
        return
    # d stands at a corner of the first square, e at the extra cell
    c1 = s1[d][1]
    box = [at(r, x) for r in (r1, r2) for x in (c1, c2)]
    five = box + [at(*s1[e])]
    both = [at(r, x) for r in rows for q in (k, j)
            for x in range(3 * q, 3 * q + 3)]
    far = [x for x in range(81) if f[x] not in (d, e) and x not in five]
    keep = rng.sample(far, rng.choice([1, 2, 4, 10]))
    p = [f[x] if x in keep else 0 for x in range(81)]
    g = Sudoku(p)
    for q in (d, e):
        g.unplace(q, sum(1 << x for x in both if x not in five))
    g.assume_unique = True
    repeated(c, g, p, 'trapezoid', ['trapezoid'])


# ---------------------------------------------------------------------------

C53 = Prop(
    'C53', 'Random puzzles generated with and without symmetry, and random '
    're-arrangements of given puzzles, under seeded randomness; an '
    'independent solver decides uniqueness and minimality, and a search over '
    'line orders and digit relabellings decides equivalence.  Non-trivial: '
    'every generated puzzle, and re-arrangements of puzzles with 17 clues or '
    'more.', FILES, need={'generated': 10, 'permuted': 60})


def symmetric(p):
    return all(bool(p[x]) == bool(p[80 - x]) for x in range(81))


def judge_generated(c, p, sym):
    want = M.solve(M.candidates(p), 2)
    c.eq(len(want), 1, 'not exactly one solution', p=p)
    if sym:
        c.check(symmetric(p), 'clues not symmetric', p=p)
    for x in range(81):
        if p[x] and (not sym or x <= 80 - x):
            q = list(p)
            q[x] = 0
            if sym:
                q[80 - x] = 0
            c.check(len(M.solve(M.candidates(q), 2)) > 1,
                    'redundant clues', p=p, cell=x)


@C53.driver(36, 250)
def generate(c):
    rng = c.rng
    sym = rng.random() < .6
    random.seed(rng.randrange(10 ** 9))
    if sym and rng.random() < .5:
        g = c.call(S.random_puzzle)
    else:
        g = c.call(S.random_puzzle, sym)
    c.event('generated')
    p = list(g.contents)
    judge_generated(c, p, sym)
    c.nontrivial(tuple(p))
    c.sample(p)


@C53.driver(200)
def rearrange(c):
    rng = c.rng
    k = rng.randrange(4)
    if k == 0:
        p = M.full(rng)
    else:
        p, unique = puzzle(c)
        if k == 1:
            f = M.solve(M.candidates(p), 1)[0]
            half = rng.sample(range(41), rng.choice([
                rng.randint(8, 18), rng.randint(8, 41)]))
            p = [f[x] if min(x, 80 - x) in half else 0 for x in range(81)]
    sym = rng.random() < .6
    random.seed(rng.randrange(10 ** 9))
    g = Sudoku(p)
    c.note('puzzle', p, sym)
    before = list(g.contents)
    if sym and rng.random() < .5:
        h = c.call(S.permute, g, pure=False)
    else:
        h = c.call(S.permute, g, sym, pure=False)
    c.eq(list(g.contents), before, 'puzzle modified')
    q = list(h.contents)
    c.check(M.equivalent(p, q), 'not a re-arrangement', p=p, q=q)
    if sym and symmetric(p):
        c.event('symmetric')
        c.check(symmetric(q), 'symmetry lost', p=p, q=q)
    c.event('permuted')
    if sum(map(bool, p)) >= 17:
        c.nontrivial(tuple(p))


@C53.driver(6)
def variety(c):
    """Re-arrangements move every row, column and digit everywhere allowed."""
    rng = c.rng
    random.seed(rng.randrange(10 ** 9))
    sym = c.i % 2 == 0
    rows, cols, digs = set(), set(), set()
    p = [0] * 81
    p[rng.randrange(81)] = rng.randint(1, 9)
    for _ in range(400):
        q = S.permute(Sudoku(p), sym).contents
        x = next(x for x in range(81) if q[x])
        rows.add(x // 9)
        cols.add(x % 9)
        digs.add(q[x])
    x = next(x for x in range(81) if p[x])
    mid = {i for i in range(9) if i // 3 == 1}
    if not sym:
        c.eq((rows, cols), (set(range(9)), set(range(9))), 'cells never used')
    c.eq(digs, set(range(1, 10)), 'digits never used')
    c.event('permuted')


# ---------------------------------------------------------------------------

C54 = Prop(
    'C54', 'Puzzles and solutions written in each output format and parsed '
    'by independent readers, read back from text, and complete runs of the '
    'command-line program with its options, in process, with replaced '
    'streams; exhaustive over formats, random over puzzles.  Non-trivial: '
    'at least one empty and one filled cell.',
    FILES, need={'written': 60, 'read': 40, 'command line': 30,
                 'unsolvable': 5})


class Cells(HTMLParser):
    """Reads the nested table: nine squares of nine cells."""

    def __init__(self):
        HTMLParser.__init__(self)
        self.depth = 0
        self.squares = []
        self.rows = []
        self.errors = []

    def handle_starttag(self, tag, attrs):
        if tag == 'table':
            self.depth += 1
            if self.depth == 2:
                self.squares[-1].append([])
        elif tag == 'tr':
            (self.squares if self.depth == 1 else
             self.squares[-1][-1]).append([])
        elif tag == 'td' and self.depth == 2:
            self.squares[-1][-1][-1].append(0)
        elif tag == 'input':
            if self.squares[-1][-1][-1][-1] != 0:
                self.errors.append('input in a filled cell')

    def handle_endtag(self, tag):
        if tag == 'table':
            self.depth -= 1

    def handle_data(self, data):
        data = data.strip()
        if data:
            try:
                self.squares[-1][-1][-1][-1] = int(data)
            except (ValueError, IndexError):
                self.errors.append('text %r' % data)


def parse(fmt, text):
    """Grids (81 digits each) in a program output, or an error message."""
    if fmt in ('text', 'txt', 't', 'numeric', 'num', 'n'):
        empty = '.' if fmt[0] == 't' else '0'
        cells = [0 if ch == empty else int(ch) for ch in text
                 if ch in '123456789' + empty]
        if len(cells) % 81:
            return 'wrong number of cells'
        for line in text.split('\n'):
            k = sum(ch in '123456789' + empty for ch in line)
            if k not in (0, 9):
                return 'line with %d cells' % k
        return [cells[i:i + 81] for i in range(0, len(cells), 81)]
    if fmt[0] == 'h':
        out = []
        for part in text.split('</table>\n')[0:0] or [text]:
            h = Cells()
            h.feed(part)
            h.close()
            if h.errors:
                return h.errors[0]
            if len(h.squares) % 3:
                return 'wrong number of square rows'
            for k in range(0, len(h.squares), 3):
                grid = [None] * 81
                for a in range(3):
                    if len(h.squares[k + a]) != 3:
                        return 'wrong number of squares'
                    for b in range(3):
                        if [len(r) for r in h.squares[k + a][b]] != [3] * 3:
                            return 'wrong square'
                        for i in range(3):
                            for j in range(3):
                                grid[27 * a + 9 * i + 3 * b + j] = \
                                    h.squares[k + a][b][i][j]
                out.append(grid)
        return out
    out = []
    for doc in re.findall(r'<svg.*?</svg>', text, re.S):
        grid = [0] * 81
        root = ElementTree.fromstring(doc)
        lines = set()
        for e in root.iter():
            tag = e.tag.rpartition('}')[2]
            if tag == 'text':
                x, y = float(e.get('x')), float(e.get('y'))
                j, i = int((x - 2) // 30), int((y - 2) // 30)
                if not (0 <= i < 9 and 0 <= j < 9) or grid[9 * i + j]:
                    return 'misplaced digit'
                if abs(x - 30 * j - 17) > 3:
                    return 'digit outside its cell'
                grid[9 * i + j] = int(''.join(e.itertext()))
            if tag == 'line':
                lines.add(tuple(float(e.get(k))
                                for k in ('x1', 'y1', 'x2', 'y2')))
        for i in range(1, 9):
            p = 30 * i + 2
            if (2, p, 272, p) not in lines or (p, 2, p, 272) not in lines:
                return 'missing line %d' % i
        out.append(grid)
    return out


FORMATS = ['text', 'txt', 't', 'numeric', 'num', 'n', 'html', 'h', 'svg', 's']


@contextlib.contextmanager
def streams(text=''):
    old = sys.stdin, sys.stdout, sys.stderr
    sys.stdin = io.StringIO(text)
    sys.stdout = out = io.StringIO()
    sys.stderr = err = io.StringIO()
    try:
        yield out, err
    finally:
        sys.stdin, sys.stdout, sys.stderr = old


def some_grid(c):
    rng = c.rng
    k = rng.randrange(8)
    if k == 0:
        return [0] * 81
    if k == 1:
        return M.full(rng)
    return puzzle(c)[0]


@C54.driver(90)
def formats(c):
    rng = c.rng
    p = some_grid(c)
    fmt = FORMATS[c.i % len(FORMATS)]
    g = Sudoku(p)
    c.note('puzzle', p, fmt)
    with streams() as (out, err):
        c.call(S.output_formats[fmt], g, pure=False)
    text = out.getvalue()
    c.event('written')
    c.eq(parse(fmt, text), [p], 'wrong %s output' % fmt, text=text)
    c.eq(list(g.contents), p, 'printing changed the grid')
    if fmt[0] in 'tn':
        with streams(text):
            h = c.call(S.read_puzzle)
        c.eq(list(h.contents), p, 'output does not read back', text=text)
        c.event('read')
    if 0 < sum(map(bool, p)) < 81:
        c.nontrivial(tuple(p), fmt)


@C54.driver(120)
def reading(c):
    rng = c.rng
    p = some_grid(c)
    empty = rng.choice(['.0', '.', '0', '-', '_ ', '*x', '.0?', '\n', '0-',
                        '1', '9', '5.', '.73'])
    junk = [ch for ch in ' |\n\t-+,;abcXYZé0._' if ch not in empty]
    p = [0 if str(d) in empty else d for d in p]
    text = []
    for d in p:
        while rng.random() < .3:
            text.append(rng.choice(junk))
        text.append(str(d) if d else rng.choice(empty))
    text = ''.join(text)
    c.note('text', text, empty)
    with streams(text):
        if empty == '.0' and rng.random() < .5:
            h = c.call(S.read_puzzle)
        else:
            h = c.call(S.read_puzzle, empty)
    c.eq(list(h.contents), p, 'read wrongly', text=text, empty=empty)
    c.event('read')


def run_cli(c, args, text, seed):
    """Run the program; returns its output and log."""
    old = sys.argv
    sys.argv = ['sudoku'] + args
    random.seed(seed)
    with streams(text) as (out, err), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            runpy.run_module('pads.sudoku', run_name='__main__')
        except SystemExit as e:
            code = e.code
        except Exception as e:
            sys.argv = old
            c.fail('program failed: %s' % type(e).__name__, error=str(e),
                   args=args, text=text)
        else:
            code = 0
        finally:
            sys.argv = old
    c.event('command line')
    c.check(not code, 'program exit status', code=code, args=args)
    return out.getvalue(), err.getvalue()


LEVELS = 'impossible easy moderate tricky difficult evil fiendish'.split()


@C54.driver(120)
def command(c):
    rng = c.rng
    kind = ['solve', 'backtrack', 'translate', 'generate', 'permute',
            'both', 'messages', 'verbose', 'any', 'any',
            'unsolvable', 'unsolvable'][c.i % 12]
    p, unique = puzzle(c, 'uum')
    seed = rng.randrange(10 ** 9)
    fmt = rng.choice(FORMATS)
    text = ''.join('.' if not d else str(d) for d in p)
    args = []
    if rng.random() < .8:
        args += rng.choice([['-f', fmt], ['--format', fmt.upper()]])
    else:
        fmt = 'text'
    if rng.random() < .2:
        text = text.replace('.', 'q')
        args += ['-x', 'q']
    c.note('puzzle', p, kind, args)

    def grids(out):
        body, _, tail = out.partition('\nRules used:')
        got = parse(fmt, body)
        c.check(isinstance(got, list), 'unreadable output', problem=got,
                out=out, args=args)
        return got, tail

    sols = M.solve(M.candidates(p), 12)
    if kind == 'unsolvable':
        clash = []
        for x in rng.sample(range(81), 81):
            if not p[x]:
                clash += [(x, d) for d in range(1, 10) if all(
                    p[y] != d for y in M.PEERS[x]) and all(
                    s[x] != d for s in sols)]
        if len(sols) >= 12 or not clash:
            return
        x, d = clash[0]
        text = text[:x] + str(d) + text[x + 1:]
        p[x] = d
        c.check(not M.solve(M.candidates(p), 1), 'harness: solvable')
        opts = [o for o in ('-b', '-2', '-u', '-s', '-v', '-t')
                if rng.random() < .4]
        out, err = run_cli(c, args + opts, text, seed)
        c.eq(bool(err.strip()), '-v' in opts, 'log expected only if asked',
             args=args + opts, err=err[:500])
        got, tail = grids(out)
        if '-t' in opts or '-2' in opts:
            c.eq(got[:1], [p], 'puzzle not printed', args=args + opts)
            got = got[1:]
        if '-t' in opts and '-2' not in opts or '-b' in opts:
            c.eq(got, [], 'solution printed', args=args + opts)
        c.check(len(got) <= 1 and not any(all(s) for s in got),
                'solution of an unsolvable puzzle', p=p, out=out)
        if fmt[0] in 'tn':
            c.check(re.search(r'^Level: impossible$', tail, re.M),
                    'unsolvable puzzle not called impossible', out=out, p=p)
            if '-b' in opts:
                c.check('Number of solutions: 0\n' in tail,
                        'number of solutions', out=out)
        c.event('unsolvable')
        c.nontrivial(tuple(p), tuple(args + opts))
        return
    if not unique and kind in ('translate', 'permute'):
        args += ['-u']
    if kind == 'messages':
        k = rng.randrange(6)
        if k == 0:
            out, err = run_cli(c, args + ['-0'], text, seed)
            c.eq(parse(fmt, out), [[0] * 81], 'wrong blank grid', args=args)
        elif k == 1:
            out, err = run_cli(c, ['-r'], '', seed)
            for name in ORDER:
                c.check(name + ':' in out, 'rule not described', name=name)
        elif k == 2:
            out, err = run_cli(c, ['-l'], '', seed)
            for name in LEVELS:
                c.check(name in out, 'level not described', name=name)
        elif k == 3:
            out, err = run_cli(c, ['-f', 'nonsense'], text, seed)
            c.check(not re.search('[1-9]', out), 'output in no format')
        elif k == 4:
            out, err = run_cli(c, ['stray'] + args, text, seed)
            c.check(not re.search('[1-9]', out), 'stray argument accepted')
        else:
            out, err = run_cli(c, ['-t', '-g'], text, seed)
            c.check(not re.search('[1-9]', out), 'conflicting options')
        return
    if kind == 'any':
        opts = [o for o in ('-t', '-p', '-a', '-2', '-b', '-s', '-v', '-u')
                if rng.random() < .4]
        if '-b' in opts and len(sols) >= 12:
            opts.remove('-b')
        if not unique and '-u' not in opts:
            opts.append('-u')
        rng.shuffle(opts)
        out, err = run_cli(c, args + opts, text, seed)
        c.eq(bool(err.strip()), '-v' in opts, 'log expected only if asked',
             args=args + opts, err=err[:500])
        got, tail = grids(out)
        q = p
        if '-t' in opts or '-2' in opts:
            c.check(got, 'no puzzle printed', args=args + opts, out=out)
            q = got[0]
            got = got[1:]
            if '-p' in opts:
                c.check(M.equivalent(p, q), 'not a re-arrangement', p=p,
                        q=q)
                if '-a' not in opts and symmetric(p):
                    c.check(symmetric(q), 'symmetry lost', p=p, q=q)
            else:
                c.eq(q, p, 'puzzle not printed', args=args + opts)
            want = M.solve(M.candidates(q), 12)
        elif '-p' in opts:
            want = None
        else:
            want = sols
        if '-t' in opts and '-2' not in opts:
            c.eq(got, [], 'solution printed', args=args + opts)
        elif '-b' in opts:
            if want is None:
                c.eq(len(got), len(sols), 'number of solutions',
                     args=args + opts)
                for s in got:
                    c.check(M.solved([0] * 81, s), 'not a solution', p=p)
            else:
                c.eq(sorted(map(tuple, got)), sorted(want),
                     'wrong solutions', p=q, args=args + opts)
        else:
            c.eq(len(got), 1, 'one grid expected', args=args + opts)
            if want is not None:
                for x in range(81):
                    c.check(got[0][x] == q[x] or not q[x], 'clue lost', p=q)
                    for s in want:
                        c.check(got[0][x] in (0, s[x]), 'wrong digit', p=q,
                                cell=x)
        c.nontrivial(tuple(p), tuple(args + opts))
        return
    if kind == 'translate':
        out, err = run_cli(c, args + [rng.choice(['-t', '--translate'])],
                           text, seed)
        c.eq(grids(out)[0], [p], 'translation differs', args=args)
        return
    if kind == 'permute':
        out, err = run_cli(c, args + ['-t', rng.choice(['-p', '--permute'])],
                           text, seed)
        got, tail = grids(out)
        c.eq(len(got), 1, 'one puzzle expected')
        c.check(M.equivalent(p, got[0]), 'not a re-arrangement', p=p,
                q=got[0])
        return
    if kind == 'generate':
        sym = rng.random() < .5
        both = rng.random() < .5
        out, err = run_cli(c, args + ['-g'] + (['-2'] if both else []) +
                           ([] if sym else ['-a']), '', seed)
        got, tail = grids(out)
        judge_generated(c, got[0], sym)
        c.eq(len(got), 2 if both else 1, 'number of grids')
        if both:
            s = M.solve(M.candidates(got[0]), 1)[0]
            c.check(all(y in (0, s[x]) for x, y in enumerate(got[1])),
                    'wrong solution', p=got[0], got=got[1])
            c.check(all(got[1][x] for x in range(81) if got[0][x]),
                    'clues lost')
        return
    both = kind == 'both'
    back = kind == 'backtrack' or rng.random() < .3
    opts = ['-2'] if both else []
    if back:
        if len(sols) >= 12:
            return
        opts += [rng.choice(['-b', '--backtrack'])]
    if not unique:
        opts += [rng.choice(['-u', '--unique'])]
    if rng.random() < .3:
        opts += ['-s']
    out, err = run_cli(c, args + opts, text, seed)
    if kind == 'verbose':
        out2, err2 = run_cli(c, args + opts + ['-v'], text, seed)
        c.eq(out2, out, 'verbose output differs', args=args, opts=opts)
        c.check(err2.strip() and not err.strip(), 'log expected only if asked')
    got, tail = grids(out)
    if both:
        c.check(got and got[0] == p, 'puzzle not printed', p=p, out=out)
        got = got[1:]
        if fmt[0] == 'n':
            c.check('\n\n' in out.partition('Rules used')[0],
                    'puzzle and solution run together', out=out)
    if back:
        c.eq(sorted(map(tuple, got)), sorted(sols), 'wrong solutions', p=p,
             args=args + opts)
    else:
        c.eq(len(got), 1, 'one grid expected')
        for x in range(81):
            c.check(got[0][x] == p[x] or not p[x], 'clue lost', p=p)
            for s in sols:
                c.check(got[0][x] in (0, s[x]), 'wrong digit', p=p, cell=x)
    if fmt[0] in 'tn':
        m = re.search(r'^Level: (\w+)$', tail, re.M)
        c.check(m and m.group(1) in LEVELS, 'no level', out=out)
        n = re.search(r'^Number of solutions: (\d+)$', tail, re.M)
        c.eq(int(n.group(1)) if n else 1, len(got), 'number of solutions')
        done = all(all(x) for x in got)
        used = [x.strip() for x in tail.split('\n')[0].split(',')]
        hard = 'backtrack' in used or not done or not got
        c.eq(m.group(1) == 'impossible', hard, 'wrong level', out=out)
        if not hard:
            weight = {name: 2 ** lev - 1 for name, _, lev in S.rules}
            c.check(set(used) <= set(weight) | {''}, 'unknown rule', out=out)
            if all(weight[x] == 0 for x in used if x):
                c.eq(m.group(1), 'easy', 'wrong level', out=out)
            else:
                c.check(m.group(1) != 'easy', 'wrong level', out=out)
    if 0 < sum(map(bool, p)) < 81:
        c.nontrivial(tuple(p), tuple(args + opts))


# ---------------------------------------------------------------------------

C55 = Prop(
    'C55', 'Random sequences of placements and exclusions, legal and '
    'illegal, on a grid, checked after every call against a model with one '
    'set of digits per cell.  Non-trivial: at least five placements.',
    FILES, need={'placed': 500, 'excluded': 300, 'refused': 100,
                 'bad digit': 20})


@C55.driver(240)
def bookkeeping(c):
    rng = c.rng
    start = [0] * 81
    k = rng.random()
    if k < .5:
        start = puzzle(c)[0]
    elif k < .75:
        start = M.full(rng)
        for x in rng.sample(range(81), rng.choice([0, 1, 3, 8, 15, 40])):
            start[x] = 0
    cont = [0] * 81
    cand = [set(range(1, 10)) for _ in range(81)]
    log = []

    def place(d, x):
        """Model of a placement; False if impossible."""
        if cont[x]:
            return cont[x] == d
        if d not in cand[x]:
            return False
        cont[x] = d
        cand[x] = {d} & cand[x]
        for y in M.PEERS[x]:
            cand[y].discard(d)
        return True
    for x in range(81):
        if start[x]:
            place(start[x], x)
    g = c.call(Sudoku, forms(rng, start) if any(start) else
               rng.choice([None, [], [0] * 81]), pure=False)
    c.eq(bool(g.progress), any(start), 'progress of a new grid',
         start=start)
    guide = M.solve(M.candidates(start), 1)[0]
    n = 0

    def agree():
        c.eq(list(g.contents), cont, 'contents', start=start, log=log)
        for x in range(81):
            c.eq(sorted(g.choices(x)), sorted(cand[x]), 'choices', cell=x,
                 start=start, log=log)
        c.eq(list(g), cont, 'iteration', log=log)
        c.eq(bool(g.complete()), all(cont), 'completeness', log=log)
    agree()
    for _ in range(rng.randint(5, 40) if rng.random() < .9 else 150):
        k = rng.random()
        x = rng.randrange(81)
        if not all(cont) and rng.random() < .3:
            x = rng.choice([y for y in range(81) if not cont[y]])
        g.progress = False
        before = list(cont), [set(s) for s in cand]
        if k < .05:
            d = rng.choice([0, 10, -1, 99])
            log.append(('bad digit', d, x))
            c.raises(ValueError, g.place, d, x, pure=False)
            c.raises(ValueError, g.unplace, d, 1 << x, pure=False)
            c.event('bad digit')
        elif k < .6:
            d = guide[x] if rng.random() < .7 else rng.randint(1, 9)
            log.append(('place', d, x))
            if place(d, x):
                c.call(g.place, d, x, pure=False)
                c.event('placed')
                n += 1
            else:
                c.raises(BadSudoku, g.place, d, x, pure=False)
                c.event('refused')
        else:
            cells = rng.sample(range(81), rng.choice([0, 1, 1, 2, 5, 20]))
            d = rng.randint(1, 9)
            if rng.random() < .8:
                cells = [y for y in cells if guide[y] != d]
            log.append(('unplace', d, cells))
            for y in cells:
                cand[y].discard(d)
            c.call(g.unplace, d, sum(1 << y for y in cells), pure=False)
            c.event('excluded')
        agree()
        c.eq(bool(g.progress), before != (cont, cand), 'progress', log=log)
    if n >= 5:
        c.nontrivial(tuple(start), len(log))


@C55.driver(40)
def contradictory(c):
    """Clues that share a row, column or square are refused."""
    rng = c.rng
    f = M.full(rng)
    keep = rng.sample(range(81), rng.randint(1, 40))
    p = [f[x] if x in keep else 0 for x in range(81)]
    x = rng.choice([x for x in range(81) if p[x]])
    y = rng.choice([y for y in M.PEERS[x]])
    p[y] = p[x]
    c.raises(BadSudoku, Sudoku, rng.choice([list, tuple])(p))
    c.raises(BadSudoku, Sudoku, ''.join(map(str, p)))
    c.raises(BadSudoku, Sudoku, [(d, x) for x, d in enumerate(p) if d])
    c.event('refused')


@C55.driver(30)
def independent(c):
    """Grids made from grids share nothing with them."""
    rng = c.rng
    p = puzzle(c)[0]
    a = Sudoku(p)
    b = Sudoku(a)
    before = state(b)
    q = list(p)
    h = Sudoku(q)
    sol = M.solve(M.candidates(p), 1)[0]
    for x in rng.sample(range(81), 20):
        a.place(sol[x], x)
    c.eq(state(b), before, 'copy changed with its original')
    c.eq(state(h)[0], p, 'grid changed')
    c.eq(q, p, 'argument changed')
    c.eq(list(Sudoku().contents), [0] * 81, 'new grid not empty')
    c.event('placed')


PROPS = [C50, C51, C52, C53, C54, C55]
