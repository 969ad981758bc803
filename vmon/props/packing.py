"""C44 circle packings, C45 inverting and normalising packings."""
import cmath
import math
from ..core import Prop
from .. import gens
from pads.circle_pack import circle_pack, InvertPacking, NormalizePacking, \
    InvertAround


def circle_names(rng, n):
    """None stands for the smallest circle, so it cannot name one."""
    return ['nobody' if x is None else x for x in gens.labels(rng, n)]


def disk(rng, m, inner, flips):
    """Triangulated disk: m boundary vertices, then inner ones, every face
    with an inner vertex and the inner ones connected.  Returns the cycles
    of neighbours around the inner vertices."""
    hub = m
    faces = {(hub, i, (i + 1) % m) for i in range(m)}
    for x in range(m + 1, m + inner):
        f = rng.choice(sorted(faces))
        faces.remove(f)
        a, b, c = f
        faces |= {(x, a, b), (x, b, c), (x, c, a)}
    n = m + inner
    for _ in range(flips):
        f = rng.choice(sorted(faces))
        k = rng.randrange(3)
        a, b, c = f[k:] + f[:k]             # flip edge bc of abc and cbd
        other = [(g, g.index(c)) for g in faces
                 if c in g and b in g and g != f]
        if not other:
            continue
        g, j = other[0]
        g = g[j:] + g[:j]
        if g[1] != b:
            continue
        d = g[2]
        if d == a or any({a, d} <= set(h) for h in faces):
            continue
        new = (faces - {f, other[0][0]}) | {(a, b, d), (a, d, c)}
        if proper(new, m, n):
            faces = new
    return cycles(faces, m, n)


def cycles(faces, m, n):
    succ = {v: {} for v in range(n)}
    for a, b, c in faces:
        succ[a][b] = c
        succ[b][c] = a
        succ[c][a] = b
    out = {}
    for v in range(m, n):
        w = min(succ[v])
        cyc = [w]
        while succ[v][cyc[-1]] != w:
            cyc.append(succ[v][cyc[-1]])
        out[v] = cyc
    return out


def proper(faces, m, n):
    """Inner vertices connected, inner degrees at least three, every
    boundary vertex next to an inner one."""
    nb = {v: set() for v in range(n)}
    for f in faces:
        for x in f:
            nb[x] |= set(f) - {x}
    if any(len(nb[v]) < 3 for v in range(m, n)):
        return False
    if any(all(w < m for w in nb[v]) for v in range(m)):
        return False
    if any(max(f) < m for f in faces):
        return False
    seen = {m}
    todo = [m]
    while todo:
        for w in nb[todo.pop()]:
            if w >= m and w not in seen:
                seen.add(w)
                todo.append(w)
    return len(seen) == n - m


def hexagon(k):
    """Hexagonal patch of the triangular lattice of radius k."""
    P = [(x, y) for x in range(-k, k + 1) for y in range(-k, k + 1)
         if abs(x + y) <= k]
    D = [(1, 0), (0, 1), (-1, 1), (-1, 0), (0, -1), (1, -1)]
    inner = [p for p in P if max(map(abs, (p[0], p[1], p[0] + p[1]))) < k]
    outer = [p for p in P if p not in inner]
    names = {p: i for i, p in enumerate(outer + inner)}
    return len(outer), {names[p]: [names[p[0] + a, p[1] + b] for a, b in D]
                        for p in inner}


def instance(c, m=None):
    rng = c.rng
    if m is None and rng.random() < .15:
        m, cyc = hexagon(rng.choice([1, 1, 1, 2, 2, 2, 3]))
    elif m is None and rng.random() < .1:   # many circles around one
        m = rng.randint(9, 120)
        cyc = {m: list(range(m))}
    else:
        m = m or rng.choice([3, 3, 4, 4, 5, 6, 8])
        cyc = disk(rng, m, rng.choice([1, 1, 2, 3, 4, 5, 6, 8]),
                   rng.choice([0, 0, 3, 10]))
    n = m + len(cyc)
    names = circle_names(rng, n)
    mirror = rng.random() < .5
    internal = {}
    inner = list(cyc)
    rng.shuffle(inner)
    for v in inner:
        L = cyc[v]
        if mirror:
            L = L[::-1]
        k = rng.randrange(len(L))
        L = L[k:] + L[:k]
        internal[names[v]] = rng.choice([list, tuple])(names[x] for x in L)
    scale = rng.choice([1, 1, 1e-3, 1e3])
    spread = rng.choice([1, 1.5, 3])
    outer = list(range(m))
    rng.shuffle(outer)
    external = {names[v]: scale * spread ** rng.uniform(-1, 1)
                for v in outer}
    if rng.random() < .2:
        external = dict.fromkeys(external, rng.choice([1, 1.0, 2, 7]))
    c.note('internal', internal, 'external', external)
    return internal, external


TOL = 1e-6

C44 = Prop(
    'C44',
    rule='triangulated disks (wheels, stacked and flipped triangulations, '
         'hexagonal patches) with random boundary radii; tangency of all '
         'neighbours, kept boundary radii and full turns around inner '
         'circles; non-trivial: at least two inner circles',
    anchors=['pads/circle_pack.py'],
    need={'calls': 80, 'tangencies': 1000, 'rejections': 10},
    assumptions=['relative error up to 1e-6 is accepted'])


def verify(c, P, internal, external):
    c.eq(set(P), set(internal) | set(external), 'wrong circles')
    for k, r in external.items():
        c.check(abs(P[k][1] - r) <= 1e-9 * r, 'boundary radius changed',
                k=k, want=r, got=P[k][1])
    for k in P:
        c.check(P[k][1] > 0, 'radius is not positive', k=k, P=P)

    def tangent(a, b):
        (z, r), (w, s) = P[a], P[b]
        c.event('tangencies')
        c.check(abs(abs(z - w) - (r + s)) <= TOL * (r + s),
                'neighbours are not tangent', a=a, b=b, A=P[a], B=P[b],
                internal=internal, external=external)
    turns = set()
    for k, cyc in internal.items():
        z = P[k][0]
        total = 0
        for i, w in enumerate(cyc):
            tangent(k, w)
            tangent(cyc[i - 1], w)
            total += cmath.phase((P[w][0] - z) / (P[cyc[i - 1]][0] - z))
        c.check(abs(abs(total) - 2 * math.pi) < 1e-4, 'circles do not go '
                'around once', k=k, turn=total, internal=internal)
        turns.add(total > 0)
    c.eq(len(turns), 1, 'inner circles surrounded in both directions',
         internal=internal)


@C44.driver(120, 1200)
def pack(c):
    internal, external = instance(c)
    c.sample((internal, external))
    P = c.call(circle_pack, internal, external)
    verify(c, P, internal, external)
    if len(internal) > 1:
        c.nontrivial(repr(internal), len(external))


@C44.driver(50, 500)
def disjoint(c):
    """Three boundary circles: nothing overlaps."""
    internal, external = instance(c, 3)
    P = c.call(circle_pack, internal, external)
    verify(c, P, internal, external)
    L = list(P)
    for i, a in enumerate(L):
        for b in L[:i]:
            c.check(abs(P[a][0] - P[b][0]) >= (P[a][1] + P[b][1]) *
                    (1 - TOL), 'circles overlap', a=a, b=b, P=P)
    if len(internal) > 1:
        c.nontrivial(repr(internal), 3)


@C44.driver(3, 12)
def strips(c):
    """Rows of inner circles between two rows of boundary circles."""
    rng = c.rng
    m = 1500 if c.i % 25 == 7 else rng.choice([10, 30, 60])
    names = {}
    labels = gens.labels(rng, 3 * m + 8, kinds=[
        'shuffled', 'negative', 'str', 'tuple', 'valued'])

    def name(*key):
        return names.setdefault(key, labels[len(names)])
    internal = {}
    turn = rng.choice([1, -1])
    for i in range(m):
        k = rng.randrange(6)
        L = [name(0, i + 1), name(1, i), name(1, i - 1), name(0, i - 1),
             name(2, i - 1), name(2, i)][::turn]
        internal[name(0, i)] = L[k:] + L[:k]
    if rng.random() < .5:
        keys = list(internal)
        rng.shuffle(keys)
        internal = {k: internal[k] for k in keys}
    outer = [k for k in names.values() if k not in internal]
    spread = rng.choice([1, 1.1, 1.5]) if m < 1000 else 1
    r = rng.choice([1, 1, 2.5])
    external = {k: r * spread ** rng.uniform(-1, 1) for k in outer}
    c.note('strip', m, spread)
    P = c.call(circle_pack, internal, external)
    verify(c, P, internal, external)
    c.nontrivial('strip', m, spread, c.i)


@C44.driver(20, 200)
def bad_input(c):
    internal, external = instance(c)
    if c.rng.random() < .5:
        external = dict(external)
        external[c.rng.choice(list(external))] = c.rng.choice([0, -1, -.5])
    else:
        internal = dict(internal)
        internal[c.rng.choice(list(external))] = next(
            iter(internal.values()))
    c.raises(ValueError, circle_pack, internal, external)


# ---------------------------------------------------------------------------
C45 = Prop(
    'C45',
    rule='random circles and packings; images compared with the inversion '
         'of points of the circles, inverted twice, normalised; the centre '
         'chosen around a circle compared with many other centres; '
         'non-trivial: at least four circles',
    anchors=['pads/circle_pack.py'],
    need={'calls': 200, 'circles': 800, 'centres': 1000},
    assumptions=['relative error up to 1e-6 is accepted, and 1 percent of '
                 'the optimum when a centre is searched'])


def rel(a, b):
    return abs(a - b) <= TOL * max(abs(a), abs(b), 1e-300)


@C45.driver(200, 3000)
def invert(c):
    rng = c.rng
    n = rng.randint(1, 8)
    names = circle_names(rng, n)
    if rng.random() < .05:
        n = rng.randint(20, 300)
        names = list(range(n))
        rng.shuffle(names)
    scale = rng.choice([1, 1, .01, 50])
    center = rng.choice([0j, 0, complex(rng.uniform(-2, 2),
                                        rng.uniform(-2, 2)) * scale,
                         rng.uniform(-1, 1) * scale, 1j * scale])
    P = {}
    for k in names:
        while True:
            z = rng.choice([center, complex(rng.uniform(-3, 3),
                                            rng.uniform(-3, 3)) * scale,
                            center + rng.uniform(.2, 2) * scale,
                            center + 1j * rng.uniform(.2, 2) * scale])
            r = rng.uniform(.05, 3) * scale
            d = abs(z - center)
            if abs(d - r) > .03 * scale:    # not through the centre
                break
        P[k] = (z, r)
    c.note('packing', P, center)
    c.sample((P, center))
    Q = c.call(InvertPacking, P, center)
    c.eq(set(Q), set(P), 'wrong circles')
    for k in P:
        c.event('circles')
        z, r = P[k]
        w, s = Q[k]
        c.check(s > 0, 'radius is not positive')
        for i in range(5):
            x = z + r * cmath.exp(1j * rng.uniform(0, 7))
            y = 1 / (x - center)
            c.check(abs(abs(y - w) - s) <= TOL * (abs(y) + s),
                    'image is not the inverted circle', P=P[k],
                    center=center, got=Q[k], point=x)
    B = c.call(InvertPacking, Q, 0)
    for k in P:
        z, r = P[k]
        c.check(abs(B[k][0] + center - z) <= 1e-6 * (abs(z) + r + scale) and
                abs(B[k][1] - r) <= 1e-6 * (abs(z) + r + scale),
                'inverting twice does not give the packing back', k=k,
                P=P[k], got=B[k], center=center)
    # normalising
    kw = {}
    t = 1
    if rng.random() < .5:
        t = rng.choice([2, .5, 10])
        kw['target'] = t
    k = rng.choice([None] + names)
    if rng.random() < .2 and k is None:
        N = c.call(NormalizePacking, P, **kw)
    else:
        N = c.call(NormalizePacking, P, k, **kw)
    c.eq(set(N), set(P), 'wrong circles')
    base = P[k][1] if k is not None else min(r for z, r in P.values())
    for x in P:
        c.check(rel(N[x][1], P[x][1] * t / base) and
                abs(N[x][0] - P[x][0] * t / base) <= TOL *
                (abs(P[x][0]) * t / base + 1e-12), 'wrongly scaled', P=P,
                k=k, t=t, got=N)
    if n >= 4:
        c.nontrivial(repr(P))


@C45.driver(36, 400)
def around(c):
    rng = c.rng
    internal, external = instance(c, 3)
    P = c.call(circle_pack, internal, external)
    if rng.random() < .3:               # plus strangers, far apart
        P = dict(P)
        far = 4 * max(abs(z) + r for z, r in P.values())
        for i in range(rng.randint(1, 3)):
            P['far', i] = (far * cmath.exp(2j * i + rng.random()),
                           far * rng.uniform(.05, .3))
    k = rng.choice(list(P))
    small = None
    if rng.random() < .5:
        small = rng.sample([x for x in P if x != k],
                           rng.randint(2, len(P) - 1))
        if rng.random() < .3:
            small.append(k)
        small = rng.choice([list, set, tuple])(small)
    c.note('packing', P, k, small)
    if small is None:
        Q = c.call(InvertAround, P, k)
    else:
        Q = c.call(InvertAround, P, k, small)
    c.eq(set(Q), set(P), 'wrong circles')
    W, R = Q[k]
    for x in P:
        if x != k:
            c.check(abs(Q[x][0] - W) + Q[x][1] <= R * (1 + TOL),
                    'circle not surrounded', x=x, P=P, k=k, Q=Q)
            for y in P:
                if y != k and y != x:
                    d = abs(P[x][0] - P[y][0])
                    if abs(d - P[x][1] - P[y][1]) < 1e-9 * d:
                        e = abs(Q[x][0] - Q[y][0])
                        c.check(abs(e - Q[x][1] - Q[y][1]) <= 1e-4 * e,
                                'tangency lost', x=x, y=y)
    some = set(small) if small is not None else set(P)
    some.discard(k)
    got = min(Q[x][1] for x in some) / R
    z, r = P[k]

    def value(q):
        """Smallest relative radius after inverting around q."""
        worst = 1e9
        d, s = abs(z - q), r
        base = s / abs(s * s - d * d)
        for x in some:
            d, s = abs(P[x][0] - q), P[x][1]
            worst = min(worst, s / abs(d * d - s * s))
        return worst / base
    best, arg = 0, z
    for i in range(150):
        c.event('centres')
        q = z + r * .995 * math.sqrt(rng.random()) * cmath.exp(
            2j * math.pi * rng.random())
        v = value(q)
        if v > best:
            best, arg = v, q
    step = r * .1
    for i in range(150):
        q = arg + step * complex(rng.gauss(0, 1), rng.gauss(0, 1))
        if abs(q - z) < r * .9999:
            v = value(q)
            if v > best:
                best, arg = v, q
        step *= .96
    c.check(got >= .99 * best, 'a better centre exists', got=got, best=best,
            centre=arg, P=P, k=k, small=small)
    if len(P) >= 5:
        c.nontrivial(repr(P), repr(k))


PROPS = [C44, C45]
