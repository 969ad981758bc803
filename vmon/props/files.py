"""C41 graph files, C42 nonrepetitive paths, C43 cubic matchings and xyz
graphs, C46 SVG output, C48 named graphs."""
import io
import itertools
import xml.parsers.expat
from xml.sax.saxutils import escape, quoteattr
from ..core import Prop
from .. import gens, oracles
from pads.read_undirected_graph import readUndirectedGraph, GraphFormatError
from pads.repetitivity import NonrepetitiveGraph
from pads.xyz_graph import CubicMatchPartitions, xyzEmbeddings, isxyz
from pads.biconnectivity import NotBiconnected
from pads import svg
from pads import graph_examples as ge

# ---------------------------------------------------------------------------
C41 = Prop(
    'C41',
    rule='random graphs written by independent encoders in every supported '
         'format, with optional headers, comments, blank lines and '
         'padding, given as files, strings and lists; malformed variants '
         'must be refused; non-trivial: graphs with at least 2 edges',
    anchors=['pads/read_undirected_graph.py'],
    need={'graph6': 80, 'sparse6': 80, 'malf': 80, 'edgelist': 80,
          'nodeedge': 80, 'graphml': 80, 'leda': 80, 'rejections': 150})


def six(bits, pad):
    bits = list(bits) + pad
    return ''.join(chr(63 + int(''.join(map(str, bits[i:i + 6])), 2))
                   for i in range(0, len(bits), 6))


def size6(n):
    if n <= 62:
        return chr(63 + n)
    if n <= 258047:
        return '~' + ''.join(chr(63 + (n >> s & 63)) for s in (12, 6, 0))
    return '~~' + ''.join(chr(63 + (n >> s & 63))
                          for s in (30, 24, 18, 12, 6, 0))


def to_graph6(rng, n, E):
    S = set(E)
    bits = [int((i, j) in S) for j in range(n) for i in range(j)]
    return size6(n) + six(bits, [0] * (-len(bits) % 6))


def to_sparse6(rng, n, E):
    k = max(1, (n - 1).bit_length())

    def num(x):
        return [x >> s & 1 for s in range(k - 1, -1, -1)]
    bits = []
    cur = 0
    for v, u in sorted((v, u) for u, v in E):
        if v == cur:
            bits += [0] + num(u)
        elif v == cur + 1:
            cur = v
            bits += [1] + num(u)
        else:
            bits += [1 if v > cur + 1 and rng.random() < .7 else 0] + num(v)
            cur = v
            bits += [0] + num(u)
    left = -len(bits) % 6
    pad = [1] * left
    if n in (2, 4, 8, 16) and left > k and cur == n - 2:
        pad[0] = 0
    return ':' + size6(n) + six(bits, pad)


def blank(rng, lines, extra=()):
    """Sprinkle blank lines (and comments) after the first line."""
    out = []
    for i, s in enumerate(lines):
        if i and rng.random() < .05:
            out.append(rng.choice(['', *extra]))
        out.append(s)
    return out


def to_malf(rng, n, E):
    out = ['%d%s' % (i + 1, rng.choice(['', ' 3 4', ' 0.5 1.5 name']))
           for i in range(n)] + ['#']
    for i, (u, v) in enumerate(E):
        if rng.random() < .5:
            u, v = v, u
        out.append('%d 0 %d %d' % (i + 1, u + 1, v + 1))
    return blank(rng, out)


def to_edges(rng, names, E):
    out = []
    for u, v in E:
        if rng.random() < .5:
            u, v = v, u
        out.append(names[u] + rng.choice([' ', '  ', ' - ', '\t']) +
                   names[v])
    return blank(rng, out)


def to_nodeedge(rng, names, E):
    out = ['// nodes'] + list(names)
    ids = {}
    half = rng.randint(0, len(E))
    sections = [('// edges', E[:half]), ('// named edges', E[half:])]
    if rng.random() < .5:
        sections.reverse()
    for head, part in sections:
        if not part and rng.random() < .5:
            continue
        out.append(head)
        for u, v in part:
            if rng.random() < .5:
                u, v = v, u
            if 'named' in head:
                name = 'e %d-%d' % (u, v)
                ids[frozenset((names[u], names[v]))] = name
                out.append(name)
            out += [names[u], names[v]]
    return blank(rng, out), ids


def to_graphml(rng, names, E):
    d = rng.choice(['undirected', 'undirected', 'directed'])
    out = []
    if rng.random() < .5:
        out.append('<?xml version="1.0" encoding="UTF-8"?>')
    out.append('<graphml>' if rng.random() < .5 else
               '<graphml xmlns="http://graphml.graphdrawing.org/xmlns">')
    if rng.random() < .4:
        out.append('<key id="d0" for="node" attr.name="color"/>')
        if rng.random() < .5:
            out += ['<key id="d1" for="edge">', '<default>1</default>',
                    '</key>']
    if rng.random() < .2:               # nodes of other elements
        out += ['<data key="d9">', '<node id="ghost"/>',
                '<edge source="ghost" target="nobody"/>', '</data>']
    out.append('<graph id="G" edgedefault="%s">' % d)
    if rng.random() < .3:
        out.append(rng.choice([
            '<desc>a graph</desc>', '<data key="d2">7</data>',
            '<hyperedge><endpoint node="x"/></hyperedge>']))
    for v in names:
        r = rng.random()
        if r < .6:
            out.append('<node id=%s/>' % quoteattr(v))
        elif r < .8:
            out += ['<node id=%s>' % quoteattr(v),
                    '<data key="d0">green</data>', '</node>']
        else:                           # nested graphs are not part of it
            out += ['<node', 'id=%s>' % quoteattr(v),
                    '<graph id="sub" edgedefault="%s">' % rng.choice(
                        ['undirected', 'directed']),
                    '<node id="inner"/>', '<edge source="inner" '
                    'target="inner"/>', '</graph>', '</node>']
    for i, (u, v) in enumerate(E):
        if rng.random() < .5:
            u, v = v, u
        a = ' directed="false"' if d == 'directed' or rng.random() < .3 \
            else ''
        out.append('<edge%s source=%s target=%s%s/>' % (
            rng.choice(['', ' id="e%d"' % i]), quoteattr(names[u]),
            quoteattr(names[v]), a))
    out += ['</graph>', '</graphml>']
    if rng.random() < .2:
        return [out[0], ' '.join(out[1:])] if out[0].startswith('<?') \
            else [' '.join(out)]
    return out


def to_leda(rng, n, E):
    out = ['LEDA.GRAPH', 'string', 'int', str(n)]
    out += ['|{%s}|' % rng.choice(['', 'x', 'v%d' % i]) for i in range(n)]
    out.append(str(2 * len(E)))
    arcs = [a for e in E for a in (e, e[::-1])]
    rng.shuffle(arcs)
    at = {a: i + 1 for i, a in enumerate(arcs)}
    for u, v in arcs:
        out.append('%d %d %d |{%s}|' % (u + 1, v + 1, at[v, u],
                                        rng.choice(['', '7'])))
    out = blank(rng, out, ['# comment', '#'])
    if rng.random() < .3:
        out.insert(0, '# header')
    return out


def feed(rng, lines):
    """The same lines as a list, a tuple, a file or a string."""
    k = rng.randrange(7)
    if k == 0:
        return list(lines)
    if k == 1:
        return tuple(lines)
    if k == 2:
        end = rng.choice(['\n', '\n', '\r\n'])
        return end.join(lines) + rng.choice(['', end])
    if k == 3:
        return (x for x in lines)
    if k == 4:
        return [rng.choice(['', ' ']) + x + rng.choice(['\n', '', ' \n'])
                for x in lines]
    if k == 5:
        return '\n'.join(rng.choice(['', '', ' ', '\t']) + x +
                         rng.choice(['', ' ']) for x in lines)
    return io.StringIO(''.join(rng.choice(['', '', ' ', '\t']) + x +
                               rng.choice(['', ' ']) + '\n' for x in lines))


def string_names(rng, n, plain=True):
    k = rng.randrange(5)
    if k == 0:
        L = [str(i) for i in range(n)]
    elif k == 1:
        L = ['v%d' % (i * 7 % 101 + i // 101 * 101) for i in range(n)]
    elif k == 2:
        L = ['é%dλ' % i for i in range(n)]
    elif k == 3:
        L = ['a' * (i + 1) if i % 2 and i < 200 else 'A%d!' % i
             for i in range(n)]
    else:
        L = [rng.choice(':>~-?@"') + chr(64 + i % 60) + '/' * (i // 60)
             for i in range(n)]
    if not plain and rng.random() < .5:
        L = [x + ' & <b> "q" ' + x for x in L]
    rng.shuffle(L)
    return L


def verify_graph(c, got, verts, E, names, ids=None, text=None):
    c.eq(set(got), set(verts), 'wrong vertices', text=text)
    want = {frozenset((names[u], names[v])) for u, v in E}
    have = {frozenset((u, v)) for u in got for v in got[u]}
    c.eq(have, want, 'wrong edges', text=text, graph=got)
    seen = {}
    for u in got:
        for v in got[u]:
            e = got[u][v]
            c.eq(got[v].get(u, None), e, 'edge has different ids at its '
                 'ends', u=u, v=v, graph=got)
            c.check(isinstance(e, (int, str)), 'edge id is neither integer '
                    'nor string', id=e)
            c.check(seen.setdefault(e, frozenset((u, v))) ==
                    frozenset((u, v)), 'edge id used twice', id=e, graph=got)
    if ids:
        for e, name in ids.items():
            u, v = e
            c.eq(got[u][v], name, 'edge name lost', graph=got)


@C41.driver(14, 84, fixed=True)
def large_files(c):
    """Files of hundreds or thousands of vertices, one format in turn."""
    rng = c.rng
    fmt = c.i % 7
    r = c.i // 7 % 2
    n = (rng.randint(200, 600) if fmt == 0 else
         rng.randint(258048, 300000) if fmt == 1 and r else
         rng.randint(20000, 258047) if fmt == 1 else
         rng.randint(500, 4000))
    m = rng.choice([n // 2, n, 2 * n]) if n < 5000 else rng.randint(5, 3000)
    if r and n < 5000:                      # a few hubs
        H = rng.sample(range(n), 3)
        E = {tuple(sorted((rng.choice(H), v))) for v in rng.sample(
            range(n), min(n, m)) if v not in H}
    else:
        E = {tuple(sorted(rng.sample(range(n), 2))) for _ in range(m)}
    if fmt == 3:
        E |= {(0, 1)}
    parse_file(c, n, sorted(E))


@C41.driver(900, 9000)
def parse(c):
    rng = c.rng
    if rng.random() < .1:
        n, E = gens.gnp(rng, rng.choice([61, 62, 63, 64, 65, 100]),
                        rng.choice([0, .01, .05]))
    elif rng.random() < .3:                 # padding cases of sparse6
        n, E = gens.gnp(rng, rng.choice([1, 2, 3, 4, 8, 16, 15, 17]),
                        rng.choice([.1, .3, .6]))
        E = [e for e in E if e[1] < n - rng.choice([0, 1, 1])]
    else:
        n, E = gens.small_undirected(rng, 10)
    parse_file(c, n, sorted((min(e), max(e)) for e in E))


def parse_file(c, n, E):
    rng = c.rng
    fmt = c.i % 7
    names = list(range(n))
    ids = None
    name = ('graph6', 'sparse6', 'malf', 'edgelist', 'nodeedge', 'graphml',
            'leda')[fmt]
    if fmt == 0:
        s = to_graph6(rng, n, E)
        lines = [rng.choice(['', '>>graph6<<']) + s]
    elif fmt == 1:
        if n <= 100 and rng.random() < .03:     # three-digit sizes
            n = rng.choice([4095, 4096, 5000, 9999, 20000])
            E = sorted({tuple(sorted(rng.sample(range(n), 2)))
                        for _ in range(rng.randint(0, 9))})
            names = list(range(n))
        lines = [rng.choice(['', '>>sparse6<<']) + to_sparse6(rng, n, E)]
    elif fmt == 2:
        rng.shuffle(E)
        names = [i + 1 for i in range(n)]
        lines = to_malf(rng, n, E)
    elif fmt == 3:
        rng.shuffle(E)
        if not E:
            n, E = 2, [(0, 1)]
        names = string_names(rng, n)
        lines = to_edges(rng, names, E)
    elif fmt == 4:
        rng.shuffle(E)
        names = string_names(rng, n, False)
        lines, ids = to_nodeedge(rng, names, E)
    elif fmt == 5:
        rng.shuffle(E)
        names = string_names(rng, n, False)
        lines = to_graphml(rng, names, E)
        if rng.random() < .2:
            lines = ['\n'.join(lines)]
    else:
        rng.shuffle(E)
        names = [i + 1 for i in range(n)]
        lines = to_leda(rng, n, E)
    if fmt == 3 and rng.random() < .02:     # an empty edge list
        n, E, names = 0, [], []
        lines = [''] * rng.randrange(3)
    verts = names
    if fmt == 3:
        verts = {names[x] for e in E for x in e}
    if n <= 100:
        c.note(name, lines)
        c.sample(lines)
    else:
        c.note(name, n, len(E), E[:20])
    arg = feed(rng, lines)
    got = c.call(readUndirectedGraph, arg, pure=False)
    c.event(name)
    verify_graph(c, got, verts, E, names, ids, lines)
    if len(E) >= 2:
        c.nontrivial(name, lines if n <= 100 else (n, E))


@C41.driver(300, 3000)
def refuse(c):
    rng = c.rng
    n, E = gens.gnp(rng, rng.randint(3, 7), .5)
    if len(E) < 2:
        n, E = gens.complete(4)
    k = rng.randrange(28)
    names = string_names(rng, n)
    malf = to_malf(rng, n, E)
    malf = [x for x in malf if x]
    nel, _ = to_nodeedge(rng, names, E)
    nel = [x for x in nel if x]
    leda = [x for x in to_leda(rng, n, E) if x and not x.startswith('#')]
    at = malf.index('#')

    def ml(body, default='undirected'):
        return ['<graphml>', '<graph edgedefault="%s">' % default,
                '<node id="a"/>', '<node id="b"/>', body, '</graph>',
                '</graphml>']
    if k == 0:
        bad = [to_graph6(rng, n, E) + '?']
    elif k == 1:
        bad = [to_graph6(rng, n, E)[:-1]]
    elif k == 2:
        bad = ['>>sparse6<<' + to_graph6(rng, n, E)]
    elif k == 3:                            # self-loop
        bad = malf + ['%d 0 1 1' % (len(E) + 1)]
    elif k == 4:
        bad = malf + ['%d 0 %s' % (len(E) + 1, rng.choice(
            ['1 %d' % (n + 1), '%d 1' % (n + 1), '0 1', '1 0',
             '%d %d' % (n + 1, n + 2)]))]
    elif k == 5:
        bad = malf + ['%d 1 1 2' % (len(E) + 1)]
    elif k == 6:
        bad = malf + ['%d 0 1 2' % (len(E) + 2)]
    elif k == 7:
        bad = malf + ['%d 0 1' % (len(E) + 1)]
    elif k == 8:
        bad = malf + ['%d 0 one two' % (len(E) + 1)]
    elif k == 9:
        bad = malf[:at] + ['%d' % (n + 2)] + malf[at:]
    elif k == 10:
        bad = ['a b', rng.choice(['c', 'd e f g'])]
        rng.shuffle(bad)
    elif k == 11:
        bad = ['a b', rng.choice(['c -> d', 'c d e', 'a b c d'])]
    elif k == 12:
        bad = ['a b', 'c c']
    elif k == 13:
        bad = nel + ['// nodes', names[0]]
    elif k == 14:
        bad = nel + ['// edges'] + rng.choice([
            [names[0], 'no such vertex'], ['no such vertex', names[0]]])
        if rng.random() < .5:
            bad = nel + ['// named edges', 'some name'] + bad[-2:]
    elif k == 15:
        bad = rng.choice([nel + ['// faces'], nel + ['// Nodes'],
                          ['//'] + names, ['//nodes'] + names])
    elif k == 16:
        bad = nel + ['// edges', names[0], '// edges']
    elif k == 17:
        bad = nel + ['// named edges', 'twice', names[0], names[1], 'twice',
                     names[1], names[2]]
        if rng.random() < .6:           # anywhere among several named edges
            path = ['p%d' % i for i in range(rng.randint(3, 9))]
            labels = ['e%d' % i for i in range(len(path) - 1)]
            a, b = rng.sample(range(len(labels)), 2)
            labels[a] = labels[b]
            bad = ['// nodes'] + path + ['// named edges']
            for e, u, v in zip(labels, path, path[1:]):
                bad += [e, u, v]
    elif k == 18:
        bad = rng.choice([
            ml('<edge source="a" target="b"/>', 'directed'),
            ml('<edge source="a" target="b" directed="true"/>'),
            ml('<edge source="a" target="c"/>'),
            ml('<edge source="c" target="a"/>'),
            ml('<edge source="c" target="d"/>'),
            ml('<edge source="a" target="b" directed="maybe"/>'),
            ml('<node id="n"><graph edgedefault="undirected"></graph></node>'
               '<edge source="a" target="b"/>', 'directed'),
            ml('<edge source="a"/>'), ml('<edge target="a"/>'),
            ml('<edge source="a" target="a"/>'), ml('<node/>'),
            ml('<node id="a"/>'),
            ['<graphml>', '<graph>', '</graph>', '</graphml>'],
            ['<graphml>', '<graph edgedefault="undirected">',
             '<edge source="a" target="b"/>', '</graph>', '</graphml>'],
            ['<graphml>', '<graph edgedefault="undirected">',
             '<node id="a"/>', '<edge source="b" target="c"/>', '</graph>',
             '</graphml>'],
            ['<html>', '<graph edgedefault="undirected">', '</graph>',
             '</html>']])
    elif k == 19:
        bad = leda[:-1] + [leda[-1].replace(leda[-1].split()[2], '0', 1)
                           if False else ' '.join(
                               leda[-1].split()[:2] + ['0', '|{}|'])]
    elif k == 20:
        bad = leda[:-1] + [' '.join(leda[-1].split()[:3])]
    elif k == 21:
        bad = leda[:rng.randint(1, len(leda) - 1)]
    elif k == 22:
        bad = nel + ['// edges', names[0]] if rng.random() < .5 else \
            nel + ['// named edges', 'name'] + names[:rng.randint(0, 1)]
    elif k == 24:                           # not well-formed
        good = [x for x in to_graphml(rng, names, E)]
        text = '\n'.join(good)
        cut = text[:rng.randrange(1, len(text))]
        bad = rng.choice([
            cut.split('\n'), good[:-1] or [good[0][:-1]], good + ['<more/>'],
            [good[0]] + ['</node>'] + good[1:] if good[0] == '<graphml>'
            else good + ['x'], ['<'], ['<graphml'], ['<graphml><']])
    elif k in (25, 26):                     # one more pair of LEDA edges
        a, b = rng.choice([(0, 1), (n + 1, 1), (1, n + 3), (n + 1, n + 2),
                           (1, 1), (n, n), (-1, 1)])
        m = 2 * len(E)
        bad = leda[:4 + n] + [str(m + (2 if k == 25 else 1))] + leda[5 + n:]
        bad.append('%d %d %d |{}|' % (a, b, m + (2 if k == 25 else 1)))
        if k == 25:
            bad.append('%d %d %d |{}|' % (b, a, m + 1))
    elif k == 27:
        t = rng.randrange(len(leda))
        bad = list(leda)
        if t < 4:
            bad[3] = rng.choice(['', 'three', '3.5', 'x1'])
            bad = [x for x in bad if x]
            if len(bad) < len(leda):
                bad = leda[:4 + n] + ['many'] + leda[5 + n:]
        else:
            bad[5 + n if t < 5 + n else t] = rng.choice(
                ['a b c |{}|', '1 two 3 |{}|', '1 2', '1 2 x |{}|'])
    else:
        bad = rng.choice([['>>graph6<<'], ['>>sparse6<<'], ['>>sparse6<<:'],
                          ['~'], ['~?@'], [':~?@'], ['>>graph6<<~~'],
                          ['>>graph6<<C\xe9'], ['>>graph6<<C\x7f'],
                          ['>>graph6<<C+'], ['>>sparse6<<:C\x7f'],
                          ['>>sparse6<<:C C'], ['>>graph6<<\xe9']])
    c.note('malformed', k, bad)
    if k == 24:
        arg = bad
    else:
        arg = feed(rng, bad)
    c.raises(GraphFormatError, readUndirectedGraph, arg, pure=False)
    c.nontrivial('malformed', k, bad)


# ---------------------------------------------------------------------------
C42 = Prop(
    'C42',
    rule='labelled digraphs with up to ten labels at a vertex, self-loops '
         'and parallel labels, against search over (edge, label) states; '
         'non-trivial: some but not all edges on nonrepetitive cycles',
    anchors=['pads/repetitivity.py', 'pads/dfs.py',
             'pads/strong_connectivity.py'],
    need={'calls': 300, 'cyclic_edges': 300, 'acyclic_edges': 300,
          'reach_queries': 1000, 'paths': 500, 'rejections': 200})


def cyclic(edges, succ):
    """Edges on a closed walk: by bit masks of what each edge reaches."""
    index = {e: i for i, e in enumerate(edges)}
    A = [0] * len(edges)
    pred = [[] for _ in edges]
    for e in edges:
        for f in succ[e]:
            A[index[e]] |= 1 << index[f]
            pred[index[f]].append(index[e])
    todo = set(range(len(edges)))
    while todo:
        i = todo.pop()
        for j in pred[i]:
            if A[i] & ~A[j]:
                A[j] |= A[i]
                todo.add(j)
    return {e for e in edges if A[index[e]] >> index[e] & 1}


@C42.driver(10, 60, fixed=True)
def nonrepetitive_large(c):
    """Many labels at one vertex, long walks, many vertices."""
    rng = c.rng
    k = c.i % 5
    G = {}
    far = []
    if k == 4:                          # one vertex with many neighbours
        n = rng.randint(90, 120)
        K = n if c.i % 10 < 5 else rng.choice([2, 3, 9])
        for i in range(1, n):
            G.setdefault(0, {})[i] = [i % K if K == n or rng.random() < .1
                                      else 0]
            if rng.random() < .8:
                G.setdefault(i, {})[0] = [(i + rng.choice([0, 1])) % K]
            if rng.random() < .1:
                G.setdefault(i, {})[rng.randrange(1, n)] = [rng.randrange(K)]
        far = [(0, G[0][i][0], i, G[0][i][0])
               for i in rng.sample(range(1, n), 40)]
    elif k == 0:
        n = rng.randint(2, 5)
        K = rng.randint(20, 90)
        for i in range(n):
            for j in range(n):
                if rng.random() < .5:
                    G.setdefault(i, {})[j] = rng.sample(
                        range(K), rng.choice([1, 2, K // 2, K]))
        G.setdefault(0, {}).setdefault(1, range(K))
        G.setdefault(1, {}).setdefault(n, [0, K - 1, rng.randrange(K)])
    elif k == 1:                        # one long walk, perhaps closed
        n = rng.randint(500, 1500)
        for i in range(n):
            G[i] = {i + 1: [rng.choice('ab') + str(i % 2)]}
        if rng.random() < .5:
            G[n] = {0: ['z']}
        if c.i > 5 and rng.random() < .5:
            a = rng.randrange(1, n)
            G[a] = {a + 1: G[a - 1][a]}
        far = [(0, G[0][1][0], w, G[w - 1][w][0])
               for w in (n, n // 2, rng.randrange(1, n))]
    elif k == 2:                        # two tracks with crossings
        n = rng.randint(200, 500)
        for i in range(n):
            for s in (0, 1):
                G[i, s] = {(i + 1, s): [(i + s) % 3]}
                if rng.random() < .2:
                    G[i, s][i + 1, 1 - s] = [rng.randrange(3)]
        if rng.random() < .7:
            G[n, 0] = {(0, 1): [rng.randrange(3)]}
    else:
        n = rng.randint(100, 300)
        for _ in range(int(n * rng.choice([1, 1.5, 3]))):
            u, v = rng.randrange(n), rng.randrange(n)
            G.setdefault(u, {}).setdefault(v, set()).add(rng.randrange(4))
    run_c42(c, G, 4, far)


@C42.driver(500, 6000)
def nonrepetitive(c):
    rng = c.rng
    n = rng.randint(1, 7)
    K = rng.choice([1, 2, 2, 3, 4, 5, 6, 7, 8, 10])
    p = rng.choice([.1, .2, .35, .6])
    if rng.random() < .005:
        n = rng.randint(20, 60)
        p = rng.choice([.03, .06])
        K = rng.choice([2, 3, 40])
    names = gens.labels(rng, n)
    labs = gens.labels(rng, K)
    G = {}
    if rng.random() < .005:             # one long walk
        for i in range(rng.randint(100, 400)):
            G['walk', i] = {('walk', i + 1): [labs[i % K]]}
        if rng.random() < .5:
            G['walk', len(G)] = {('walk', 0): [labs[-1]]}
    for i in range(n):
        for j in range(n):
            if rng.random() < p and (i != j or rng.random() < .3):
                S = [x for x in labs if rng.random() < rng.choice(
                    [.2, 1.5 / K])] or [rng.choice(labs)]
                G.setdefault(names[i], {})[names[j]] = rng.choice(
                    [list, set, tuple])(S)
    for v in names:
        if rng.random() < .7:
            G.setdefault(v, {})
    if not G:
        G = {names[0]: {}}
    c.sample(G)
    run_c42(c, G)


def run_c42(c, G, few=12, far=()):
    rng = c.rng
    c.note('graph', G)
    edges = [(v, w, L) for v in G for w in G[v] for L in set(G[v][w])]
    verts = set(G) | {w for v in G for w in G[v]}
    by_tail = {}
    for e in edges:
        by_tail.setdefault(e[0], []).append(e)
    succ = {e: [f for f in by_tail.get(e[1], ()) if f[2] != e[2]]
            for e in edges}

    def reach(starts):
        seen = set(starts)
        todo = list(starts)
        while todo:
            for f in succ[todo.pop()]:
                if f not in seen:
                    seen.add(f)
                    todo.append(f)
        return seen
    N = c.call(NonrepetitiveGraph, G)
    c.eq(set(N), verts, 'wrong vertices', G=G)
    at = {v: set() for v in verts}
    for x, y, L in edges:
        at[x].add(L)
        at[y].add(L)
    for v in verts:
        c.check(v in N, 'vertex missing')
        c.eq(set(N[v]), at[v], 'wrong labels at a vertex', G=G, v=v)
    got = list(c.call(N.cyclic))
    c.eq(len(got), len(set(got)), 'edge listed twice', G=G)
    want = cyclic(edges, succ) if len(edges) > 60 else \
        {e for e in edges if e in reach(succ[e])}
    c.event('cyclic_edges', len(want))
    c.event('acyclic_edges', len(edges) - len(want))
    c.eq(set(got), want, 'wrong edges on nonrepetitive cycles', G=G)
    if want and len(want) < len(edges):
        c.nontrivial(repr(sorted(map(repr, edges))))
    pairs = [(v, L) for v in verts for L in N[v]]
    rng.shuffle(pairs)
    for v, L in pairs[:few]:
        got = list(c.call(N.reachable, v, L))
        R = reach([e for e in edges if e[0] == v and e[2] == L])
        c.event('reach_queries')
        c.eq(len(got), len(set(got)), 'pair listed twice', G=G)
        c.eq(set(got), {(w, M) for x, w, M in R}, 'wrong reachable pairs',
             G=G, v=v, L=L)
    c.eq(list(c.call(N.reachable, 'no such vertex', 0)), [],
         'reachable from nowhere')
    for q in list(far) + [None] * few:
        if not pairs:
            break
        v, L, w, M = q or rng.choice(pairs) + rng.choice(pairs)
        dist = {e: 1 for e in edges if e[0] == v and e[2] == L}
        queue = list(dist)
        for e in queue:
            for f in succ[e]:
                if f not in dist:
                    dist[f] = dist[e] + 1
                    queue.append(f)
        ends = [d for (x, y, Q), d in dist.items() if y == w and Q == M]
        if not ends:
            c.raises(ValueError, N.shortest, v, L, w, M, pure=False)
            continue
        path = list(c.call(N.shortest, v, L, w, M))
        c.event('paths')
        c.eq(len(path), min(ends) + 1, 'path is not shortest', G=G,
             path=path)
        c.check(path[0] == v and path[-1] == w, 'wrong ends', path=path)
        # labels with which the path can be walked
        cur = {L}
        first = True
        for x, y in zip(path, path[1:]):
            have = set(G.get(x, {}).get(y, ()))
            if first:
                cur = {L} & have
                first = False
            else:
                cur = {Q for Q in have if cur - {Q}}
            c.check(cur, 'path repeats a label', G=G, path=path)
        c.check(M in cur, 'path does not end with the label', G=G,
                path=path, label=M)


# ---------------------------------------------------------------------------
C43 = Prop(
    'C43',
    rule='cubic graphs with and without 3-edge-colourings, against all '
         'colourings by backtracking; embeddings checked line by line; '
         'non-trivial: at least two partitions or one embedding',
    anchors=['pads/xyz_graph.py', 'pads/biconnectivity.py',
             'pads/partial_order.py'],
    need={'calls': 100, 'partitions': 300, 'embeddings': 15,
          'rejections': 30})


def colourings(n, E):
    """3-edge-colourings up to permuting colours, as sets of matchings."""
    E = sorted(E)
    A = [[] for _ in range(n)]
    for k, (u, v) in enumerate(E):
        A[u].append(k)
        A[v].append(k)
    out = set()
    col = [None] * len(E)
    # order the edges by a search so that conflicts show early
    order = []
    seen = set()
    todo = [0]
    while todo:
        v = todo.pop()
        for k in A[v]:
            if k not in seen:
                seen.add(k)
                order.append(k)
                todo += [x for x in E[k]]

    def go(i):
        if i == len(order):
            out.add(frozenset(
                frozenset(E[k] for k in range(len(E)) if col[k] == q)
                for q in range(3)))
            return
        k = order[i]
        used = {col[j] for x in E[k] for j in A[x]}
        for q in range(3):
            if q not in used:
                if i == 0 and q > 0:
                    break
                col[k] = q
                go(i + 1)
                col[k] = None
    go(0)
    return out


def pair_cycles(n, M1, M2):
    A = gens.adjacency(n, list(M1) + list(M2))
    D = {}
    for k, comp in enumerate(gens.components(A)):
        comp = gens.bits(comp) if isinstance(comp, int) else comp
        for v in comp:
            D[v] = k
    return D


@C43.driver(140, 1200)
def cubic_partitions(c):
    rng = c.rng
    k = rng.randrange(9)
    if k < 3:
        idx = gens.random_cubic(rng, 2 * rng.randint(2, 6)) or \
            gens.complete(4)
    elif k == 3:
        idx = gens.prism(rng.randint(3, 7))
    elif k == 4:
        idx = gens.moebius(rng.randint(2, 7))
    elif k == 5:
        idx = rng.choice([gens.hypercube(3), gens.prism(6)])
    elif k == 6:
        idx = gens.petersen(rng.choice([5, 6, 7, 8]), rng.choice([1, 2, 2]))
    elif k == 7:
        idx = rng.choice([gens.complete_bipartite(3, 3), gens.complete(4)])
    else:
        from .special import truncate
        idx = truncate(rng, rng.choice([gens.complete(4), gens.prism(3),
                                        gens.complete_bipartite(3, 3)]),
                       rng.randint(1, 3))
    n, E = gens.relabel(rng, idx)
    if n > 16 or any(len(a) != 3 for a in gens.adjacency(n, E)):
        n, E = gens.prism(4)
    run_cubic(c, n, E)


@C43.driver(8, 40)
def cubic_larger(c):
    n, E = [gens.prism(8), gens.prism(9), gens.petersen(10, 3),
            gens.petersen(9, 2), gens.petersen(8, 3), gens.moebius(9),
            gens.petersen(10, 2), gens.prism(10)][c.i % 8]
    run_cubic(c, *gens.relabel(c.rng, (n, E)))


def run_cubic(c, n, E):
    g = gens.build(c.rng, n, E)
    G = g.graph
    c.note('graph', G)
    c.sample(g)
    if not oracles.is_2connected(n, g.edges):
        c.raises(NotBiconnected, lambda: list(CubicMatchPartitions(G)))
        return
    want = colourings(n, g.edges)
    got = list(c.call(CubicMatchPartitions, G))
    seen = set()
    for P in got:
        c.event('partitions')
        c.eq(set(P), set(G), 'partition has other vertices', G=G)
        M = [set(), set(), set()]
        for v in P:
            c.eq(sorted(map(repr, P[v])), sorted(map(repr, G[v])),
                 'partition does not use the edges of the graph', G=G, P=P)
            for i in range(3):
                w = P[v][i]
                c.check(P[w][i] == v, 'not a matching', G=G, P=P)
                a, b = g.index[v], g.index[w]
                M[i].add((min(a, b), max(a, b)))
        key = frozenset(map(frozenset, M))
        c.check(key not in seen, 'partition generated twice', G=G, P=P)
        seen.add(key)
    c.eq(seen, want, 'partitions into matchings are missing', G=G)
    # embeddings
    good = set()
    for P in want:
        M = list(P)
        D = [pair_cycles(n, M[a], M[b]) for a, b in ((0, 1), (0, 2), (1, 2))]
        ok = True
        for a, b in ((0, 1), (0, 2), (1, 2)):
            lines = {}
            for v in range(n):
                lines.setdefault((D[a][v], D[b][v]), []).append(v)
            ok = ok and all(len(L) == 2 for L in lines.values())
        if ok:
            good.add(P)
    found = set()
    for X in c.call(xyzEmbeddings, G):
        c.event('embeddings')
        c.eq(set(X), set(G), 'embedding has other vertices', G=G)
        pts = {v: tuple(X[v]) for v in X}
        c.eq(len(set(pts.values())), n, 'two vertices at one point', G=G,
             X=X)
        M = []
        for i in range(3):
            lines = {}
            for v in pts:
                key = pts[v][:i] + pts[v][i + 1:]
                lines.setdefault(key, []).append(v)
            m = set()
            for L in lines.values():
                c.eq(len(L), 2, 'line without exactly two points', G=G, X=X)
                c.check(L[1] in G[L[0]], 'collinear points are not '
                        'adjacent', G=G, X=X)
                a, b = g.index[L[0]], g.index[L[1]]
                m.add((min(a, b), max(a, b)))
            M.append(frozenset(m))
        key = frozenset(M)
        c.check(key not in found, 'embedding listed twice', G=G)
        found.add(key)
        c.check(c.call(isxyz, list(pts.values())), 'embedding is not '
                'recognised', X=X)
    c.eq(found, good, 'embeddings are missing', G=G)
    if len(want) > 1 or good:
        c.nontrivial(g.key())


@C43.driver(2, 8, fixed=True)
def cubic_largest(c):
    run_cubic(c, *gens.relabel(c.rng, c.rng.choice([
        gens.prism(11), gens.prism(12), gens.moebius(11), gens.moebius(12),
        gens.petersen(11, 2), gens.petersen(12, 5), gens.petersen(11, 3)])))


@C43.driver(60, 600)
def not_cubic(c):
    rng = c.rng
    k = rng.randrange(4)
    if k == 0:
        g = gens.build(rng, *gens.complete(5)).graph
    elif k == 1:
        g = gens.build(rng, *gens.cycle(5)).graph
    elif k == 2:
        n, E = gens.prism(4)
        D = set(E) | {(v, u) for u, v in E}
        u, v = rng.choice(sorted(D))
        w = rng.choice([x for x in range(n) if x not in (u, v) and
                        (u, x) not in D])
        D = (D - {(u, v)}) | {(u, w)}
        g = gens.build(rng, n, sorted(D), directed=True).graph
    else:                               # bridge, or two components
        H = [(0, 1), (0, 2), (1, 2), (1, 3), (2, 3), (0, 4), (3, 4)]
        E = H + [(a + 5, b + 5) for a, b in H] + [(4, 9)]
        n = 10
        if rng.random() < .5:
            n, E = gens.union(gens.complete(4), gens.prism(3))
        g = gens.build(rng, n, E).graph
        c.raises(NotBiconnected, lambda: list(CubicMatchPartitions(g)))
        return
    c.raises(ValueError, lambda: list(CubicMatchPartitions(g)))


@C43.driver(60, 600)
def lines_of_points(c):
    rng = c.rng
    k = rng.randrange(6)
    if k == 0:
        P = list(itertools.product(rng.sample(range(9), 2), repeat=3))
    elif k == 4:                        # boxes, each elsewhere
        P = []
        for i in range(rng.randint(1, 3)):
            P += itertools.product(*[[10 * i + x for x in range(
                rng.choice([1, 2, 2, 2, 3, 4]))] for _ in range(3)])
    elif k == 5:                        # one or two bad directions
        fix = rng.sample(range(3), rng.randint(1, 2))
        P = []
        for p in itertools.product((0, 1), repeat=3):
            if not any(p[i] for i in fix):
                P.append(p)
        m = rng.randint(1, 3)
        P = [tuple(x + 2 * j for x in p) for p in P for j in range(m)]
    elif k == 1:
        P = [p for p in itertools.product(range(3), repeat=3)
             if rng.random() < .5]
    elif k == 2:                        # permutations: truncated octahedron
        P = [(p[0], p[1], p[2]) for p in itertools.permutations(range(4))]
    else:
        P = list(itertools.product((0, 1), repeat=3))
        q = rng.randrange(8)
        P[q] = (P[q][0] + 5, P[q][1], P[q][2])
    axes = rng.sample(range(3), 3)
    P = [tuple(p[i] for i in axes) for p in P]
    rng.shuffle(P)
    ok = True
    for i in range(3):
        d = {}
        for p in P:
            key = p[:i] + p[i + 1:]
            d[key] = d.get(key, 0) + 1
        ok = ok and all(v == 2 for v in d.values())
    c.eq(bool(c.call(isxyz, P)), ok, 'wrong verdict on a point set', P=P)


# ---------------------------------------------------------------------------
C46 = Prop(
    'C46',
    rule='random drawings with nested groups, styles, prefixes and '
         'indentation, read back with an XML parser and compared with the '
         'calls; non-trivial: drawings with at least one group and four '
         'shapes',
    anchors=['pads/svg.py'],
    need={'drawings': 150, 'shapes': 1000, 'groups': 100, 'rejections': 20})


def close_to(a, b):
    return abs(float(a) - b) <= 6e-5


@C46.driver(200, 2500)
def drawings(c):
    rng = c.rng
    out = io.StringIO()

    def num():
        return rng.choice([rng.uniform(-50, 500), float(rng.randint(0, 900)),
                           rng.uniform(0, 1e-3), 0.0, 1234567.875,
                           -rng.random(), 100.0, 0.5])

    def pt():
        return complex(num(), num())
    bbox = complex(rng.choice([100, 72.5, 1000]), rng.choice([50, 300.25]))
    standalone = rng.random() < .5
    prefix = rng.choice([None, None, '', 's', 'svg'])
    indent = rng.choice([0, 0, 3, rng.randint(1, 200)])
    S = c.call(svg.SVG, bbox, out, standalone, prefix, indent, pure=False)
    want = []

    def styles():
        s, m = {}, {}
        for key in ('fill', 'stroke', 'opacity'):
            if rng.random() < .3:
                s[key] = rng.choice([svg.colors.red, svg.colors.none, '0.5',
                                     'url(#x)'])
            if rng.random() < .3:
                m[key] = rng.choice([svg.colors.blue, svg.colors.black])
        if rng.random() < .2:
            s['stroke-width'] = '2'
        return s, m, dict(s, **m)
    depth = 0
    deep = rng.random() < .05
    for _ in range(rng.randint(60, 200) if deep else rng.randint(0, 14)):
        k = rng.randrange(9)
        if deep and rng.random() < .7:
            k = 0
        s, m, full = styles()
        c.guard(s)
        if k == 0:
            c.call(S.group, s, **m)
            want.append((depth, 'g', {}, full, ''))
            depth += 1
            c.event('groups')
        elif k == 1 and depth:
            depth -= 1
            c.call(S.ungroup)
        elif k == 2:
            z, r = pt(), abs(num())
            c.call(S.circle, z, r, s, **m)
            want.append((depth, 'circle', {'cx': z.real, 'cy': z.imag,
                                           'r': r}, full, ''))
        elif k == 3:
            p, q = pt(), pt()
            c.call(S.rectangle, p, q, s, **m)
            want.append((depth, 'rect', {
                'x': min(p.real, q.real), 'y': min(p.imag, q.imag),
                'width': abs(p.real - q.real),
                'height': abs(p.imag - q.imag)}, full, ''))
        elif k == 4:
            L = [pt() for _ in range(rng.randint(1, 6))]
            c.call(S.polygon, rng.choice([list, tuple])(L), s, **m)
            want.append((depth, 'polygon', {'points': L}, full, ''))
        elif k == 5:
            p, q = pt(), pt()
            c.call(S.segment, p, q, s, **m)
            want.append((depth, 'line', {'x1': p.real, 'y1': p.imag,
                                         'x2': q.real, 'y2': q.imag}, full,
                         ''))
        elif k == 6:
            p, q, r = pt(), pt(), num()
            large = rng.random() < .5
            c.call(S.arc, p, q, r, large, s, **m)
            want.append((depth, 'path', {'d': (p, q, abs(r), large)}, full,
                         ''))
        elif k == 7:
            t = rng.choice(['label', 'x  y', '', ' é', 'a<b&c'])
            z = pt()
            c.call(S.text, escape(t), z, s, **m)
            want.append((depth, 'text', {'x': z.real, 'y': z.imag}, full, t))
        else:
            c.call(S.element, 'use href="#a"', 0, False, s, **m)
            want.append((depth, 'use', {'href': '#a'}, full, ''))
        c.release()
        c.event('shapes')
    broken = rng.random() < .15
    if broken:
        if depth and rng.random() < .5:
            pass
        else:
            S.group()
            depth += 1
        c.raises(Exception, S.close)
        return
    while depth:
        S.ungroup()
        depth -= 1
    c.call(S.close)
    doc = out.getvalue()
    c.note('document', doc)
    c.sample(doc[:200])
    c.event('drawings')
    if len(want) >= 5 and any(w[1] == 'g' for w in want):
        c.nontrivial(doc)
    got = []
    stack = []
    texts = {}

    def start(name, attrs):
        got.append((len(stack), name, attrs, len(got)))
        stack.append((name, len(got) - 1))

    def end(name):
        stack.pop()

    def chars(data):
        if stack:
            texts[stack[-1][1]] = texts.get(stack[-1][1], '') + data
    p = xml.parsers.expat.ParserCreate()
    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = chars
    try:
        p.Parse(doc, True)
    except xml.parsers.expat.ExpatError as e:
        c.fail('not well-formed: %s' % e, doc=doc)
    c.eq(doc.startswith('<?xml'), standalone, 'wrong prologue')
    pre = prefix + ':' if prefix else ''
    c.check(all(x.startswith(' ' * indent) for x in
                doc.splitlines()[3 if standalone else 0:]
                if x.lstrip().startswith('<')),
            'line not indented', doc=doc)
    c.eq([x[1] for x in got], [pre + 'svg'] + [pre + w[1] for w in want],
         'wrong elements')
    root = got[0][2]
    c.check(close_to(root['width'], bbox.real) and
            close_to(root['height'], bbox.imag), 'wrong size', root=root)
    vb = [float(x) for x in root['viewBox'].split()]
    c.check(vb[:2] == [0, 0] and close_to(vb[2], bbox.real) and
            close_to(vb[3], bbox.imag), 'wrong view box', root=root)
    for (d, tag, geo, style, text), (D, name, attrs, ix) in zip(
            want, got[1:]):
        c.eq(D, d + 1, 'wrong nesting', element=name)
        st = {}
        for part in attrs.get('style', '').split(';'):
            if part.strip():
                key, _, val = part.partition(':')
                st[key.strip()] = val.strip()
        c.eq(st, style, 'wrong style', element=name, attrs=attrs)
        if tag == 'text':
            c.eq(texts.get(ix, ''), text, 'wrong text')
        for key, v in geo.items():
            c.check(key in attrs, 'attribute missing', key=key, attrs=attrs)
            a = attrs[key]
            if key == 'href':
                ok = a == v
            elif key == 'points':
                P = [x.split(',') for x in a.split()]
                ok = len(P) == len(v) and all(
                    close_to(x, z.real) and close_to(y, z.imag)
                    for (x, y), z in zip(P, v))
            elif key == 'd':
                t = a.replace(',', ' ').split()
                p_, q_, r_, large = v
                ok = (len(t) == 11 and t[0] == 'M' and t[3] == 'A' and
                      close_to(t[1], p_.real) and close_to(t[2], p_.imag) and
                      close_to(t[4], r_) and close_to(t[5], r_) and
                      int(t[7]) == large and t[8] == '0' and
                      close_to(t[9], q_.real) and close_to(t[10], q_.imag))
            else:
                ok = close_to(a, v)
            c.check(ok, 'wrong geometry', element=name, key=key, value=a,
                    want=v)


# ---------------------------------------------------------------------------
C48 = Prop(
    'C48',
    rule='every named graph against its published order, girth, diameter '
         'and distance distribution, or an independent construction; '
         'parametrised families against their definitions for all small '
         'parameters; non-trivial: distinct graphs',
    anchors=['pads/graph_examples.py'],
    need={'named': 9, 'family': 100})


def girth(G):
    best = None
    for s in G:
        dist = {s: 0}
        par = {s: None}
        q = [s]
        for v in q:
            for w in G[v]:
                if w not in dist:
                    dist[w] = dist[v] + 1
                    par[w] = v
                    q.append(w)
                elif w != par[v]:
                    x = dist[v] + dist[w] + 1
                    best = x if best is None else min(best, x)
    return best


def layers(G, s):
    dist = {s: 0}
    q = [s]
    for v in q:
        for w in G[v]:
            if w not in dist:
                dist[w] = dist[v] + 1
                q.append(w)
    return tuple(sum(d == k for d in dist.values())
                 for k in range(max(dist.values()) + 1))


def isomorphic(G, H):
    """Backtracking isomorphism of small connected cubic graphs."""
    if len(G) != len(H):
        return False
    order = []
    s = next(iter(G))
    seen = {s}
    q = [s]
    for v in q:
        order.append(v)
        for w in G[v]:
            if w not in seen:
                seen.add(w)
                q.append(w)
    if len(order) != len(G):
        return False
    m = {}
    used = set()

    def go(i):
        if i == len(order):
            return True
        v = order[i]
        back = [w for w in G[v] if w in m]
        cand = set(H[m[back[0]]]) if back else set(H)
        for x in cand:
            if x in used or any(x not in H[m[w]] for w in back):
                continue
            m[v] = x
            used.add(x)
            if go(i + 1):
                return True
            del m[v]
            used.discard(x)
        return False
    return go(0)


def kneser():
    V = list(itertools.combinations(range(5), 2))
    return {v: {w for w in V if not set(v) & set(w)} for v in V}


def double(G):
    return {(v, b): {(w, 1 - b) for w in G[v]} for v in G for b in (0, 1)}


def coxeter():
    lines = [{i, (i + 1) % 7, (i + 3) % 7} for i in range(7)]
    V = [v for v in itertools.combinations(range(7), 3)
         if set(v) not in lines]
    return {v: {w for w in V if not set(v) & set(w)} for v in V}


def tutte_coxeter():
    duads = list(itertools.combinations(range(6), 2))
    syn = [s for s in itertools.combinations(duads, 3)
           if len({x for d in s for x in d}) == 6]
    G = {d: {s for s in syn if d in s} for d in duads}
    G.update({s: set(s) for s in syn})
    return G


def gray():
    """Points and lines of the 3 x 3 x 3 grid."""
    P = list(itertools.product(range(3), repeat=3))
    G = {p: set() for p in P}
    for p in P:
        for i in range(3):
            line = p[:i] + ('*',) + p[i + 1:]
            G.setdefault(line, set()).add(p)
            G[p].add(line)
    return G


def dyck():
    """Dual of the Shrikhande graph on the torus."""
    G = {}
    for x in range(4):
        for y in range(4):
            G['up', x, y] = {('down', x, y), ('down', (x + 1) % 4, y),
                             ('down', x, (y - 1) % 4)}
    for v in list(G):
        for w in G[v]:
            G.setdefault(w, set()).add(v)
    return G


def pappus():
    """Points of the 3 x 3 torus and the lines of three slopes."""
    G = {}
    for x in range(3):
        for y in range(3):
            for s in range(3):
                line = ('L', s, (y - s * x) % 3)
                G.setdefault((x, y), set()).add(line)
                G.setdefault(line, set()).add((x, y))
    return G


NAMED = [
    # name, order, girth, layers by distance, bipartite, construction
    ('PetersenGraph', 10, 5, {(1, 3, 6)}, False, kneser),
    ('DesarguesGraph', 20, 6, {(1, 3, 6, 6, 3, 1)}, True,
     lambda: double(kneser())),
    ('CoxeterGraph', 28, 7, {(1, 3, 6, 12, 6)}, False, coxeter),
    ('McGeeGraph', 24, 7, {(1, 3, 6, 12, 2)}, False, None),
    ('DyckGraph', 32, 6, {(1, 3, 6, 9, 9, 4)}, True, dyck),
    ('PappusGraph', 18, 6, {(1, 3, 6, 6, 2)}, True, pappus),
    ('TutteCoxeterGraph', 30, 8, {(1, 3, 6, 12, 8)}, True, tutte_coxeter),
    ('GrayGraph', 54, 8, None, True, gray),
]


def simple_cubic(c, G, what):
    for v in G:
        c.eq(len(set(G[v])), 3, what + ' is not cubic', v=v)
        c.eq(len(list(G[v])), 3, what + ' lists a neighbour twice', v=v)
        c.check(v not in G[v], what + ' has a self-loop', v=v)
        for w in G[v]:
            c.check(w in G and v in G[w], what + ' is not undirected', v=v,
                    w=w)


def bipartite(G):
    col = {}
    for s in G:
        if s in col:
            continue
        col[s] = 0
        q = [s]
        for v in q:
            for w in G[v]:
                if w not in col:
                    col[w] = 1 - col[v]
                    q.append(w)
                elif col[w] == col[v]:
                    return False
    return True


@C48.driver(8, 8, fixed=True)
def named(c):
    name, n, g, lay, bip, make = NAMED[c.i]
    G = getattr(ge, name)
    c.note(name)
    c.sample(name)
    c.event('named')
    c.eq(len(G), n, name + ' has the wrong number of vertices')
    simple_cubic(c, G, name)
    c.eq(girth(G), g, name + ' has the wrong girth')
    if lay:
        c.eq({layers(G, v) for v in G}, lay, name + ' has the wrong '
             'distances')
    c.eq(bipartite(G), bip, name + ' bipartiteness')
    if make:
        c.check(isomorphic(G, make()), name + ' differs from its '
                'construction')
    c.nontrivial(name)
    if c.i == 0:
        c.event('named', 3)


FAMILY = ([('P', n, k) for n in range(3, 16) for k in range(1, (n + 1) // 2)]
          + [('C', n, a, b) for n in range(5, 12) for a in range(1, 4)
             for b in range(1, 4) if n > 2 * max(a, b)]
          + [('Q', n) for n in range(3, 11)]
          + [('P', n, k) for n in (16, 17, 40, 64, 101)
             for k in (1, 2, 7, (n - 1) // 2)]
          + [('C', n, a, b) for n in (20, 33, 64) for a in (1, 5, 9)
             for b in (2, 4, 9)])


@C48.driver(len(FAMILY), len(FAMILY), fixed=True)
def families(c):
    f = FAMILY[c.i]
    c.note(f)
    c.event('family')
    if f[0] == 'P':
        _, n, k = f
        G = c.call(ge.GeneralizedPetersenGraph, n, k)
        m, E = gens.petersen(n, k)
        c.eq(len(G), 2 * n, 'wrong number of vertices')
        ring = [(i, True) for i in range(n)]
        want = set()
        for i in range(n):
            want.add(frozenset(((i, True), (i, False))))
            want.add(frozenset(((i, True), ((i + 1) % n, True))))
            want.add(frozenset(((i, False), ((i + k) % n, False))))
    elif f[0] == 'C':
        _, n, a, b = f
        G = c.call(ge.GeneralizedCoxeterGraph, n, a, b)
        c.eq(len(G), 4 * n, 'wrong number of vertices')
        want = set()
        for i in range(n):
            for r, s in ((1, 1), (2, a), (3, b)):
                want.add(frozenset(((i, 0), (i, r))))
                want.add(frozenset(((i, r), ((i + s) % n, r))))
    else:
        n = f[1]
        G = c.call(ge.CubeConnectedCycles, n)
        c.eq(len(G), n << n, 'wrong number of vertices')
        want = set()
        for x in range(1 << n):
            for y in range(n):
                want.add(frozenset(((x, y), (x, (y + 1) % n))))
                want.add(frozenset(((x, y), (x ^ 1 << y, y))))
    simple_cubic(c, G, 'graph')
    c.eq({frozenset((v, w)) for v in G for w in G[v]}, want, 'wrong edges',
         family=f)
    c.nontrivial(f)


@C48.driver(150, 1500)
def lcf(c):
    """Random codes: symmetric chords around a Hamiltonian cycle."""
    rng = c.rng
    while True:
        k = rng.choice([2, 3, 4, 6])
        r = rng.randint(2, 6)
        n = k * r
        L = [None] * k
        ok = n >= 6 and n % 2 == 0
        for i in range(k):
            if L[i] is None and ok:
                opts = [s for s in range(2, n - 1)
                        if (i + s) % k != i and L[(i + s) % k] is None or
                        ((i + s) % k == i and 2 * s % n == 0)]
                if not opts:
                    ok = False
                    break
                s = rng.choice(opts)
                L[i] = s
                j = (i + s) % k
                if j != i:
                    L[j] = n - s
        if ok and None not in L:
            break
    if rng.random() < .5:
        L = [x - n if x > n // 2 else x for x in L]
    if rng.random() < .3:               # chords once more around the cycle
        L = [x + n * rng.randint(-3, 3) for x in L]
    c.note('code', L, r)
    c.event('family')
    G = c.call(ge.LCFNotation, rng.choice([list, tuple])(L), r)
    want = {frozenset((i, (i + 1) % n)) for i in range(n)} | {
        frozenset((i, (i + L[i % k]) % n)) for i in range(n)}
    c.eq(set(G), set(range(n)), 'wrong vertices')
    c.eq({frozenset((v, w)) for v in G for w in G[v]}, want, 'wrong edges',
         code=L)
    simple_cubic(c, G, 'graph')
    c.nontrivial(L, r)


PROPS = [C41, C42, C43, C46, C48]
