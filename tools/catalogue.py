"""The properties, in the order of properties.jsonl.  mkfiles.py writes
properties.jsonl and MANIFEST.json from this table."""

PROPS = []


def prop(pid, title, statement, over, text, why, files, mechanism, how):
    PROPS.append(dict(
        id=pid, title=title, statement=statement, over=over, text=text,
        why=why, files=['pads/' + f for f in files.split()],
        mechanism=[dict(name=n, where='pads/' + w) for n, w in mechanism],
        how=how))


# --- matchings -------------------------------------------------------------
prop('C01', 'General matchings are maximum',
     'For every undirected graph without self-loops, the general matching '
     'function returns a symmetric mate map over edges of the graph in which '
     'every vertex has at most one mate and whose size is the maximum over '
     'all matchings. This holds from the default start and from any valid '
     'initial matching, which is left unmodified like the graph; the greedy '
     'start is itself a valid matching that no edge can be added to.',
     ['inputs'], 'all undirected graphs, vertex objects, adjacency '
     'containers, and initial matchings',
     'No test calls the function; maximality over graphs with nested '
     'blossoms cannot be settled by samples.',
     'cardinality_matching.py',
     [('blossom search with contraction', 'cardinality_matching.py: '
       'matching'), ('greedy start', 'cardinality_matching.py: '
                     'greedy_matching')],
     'reference maximum by an independent matcher')
prop('C02', 'Bipartite matchings are maximum with optimal independent set',
     'For every bipartite graph given by its left vertices and their right '
     'neighbours, the matching function returns a valid right-to-left '
     'matching of maximum size together with a left part and a right part '
     'of a maximum independent set. The two parts have no edge between them '
     'and their sizes and that of the matching add up to the number of '
     'vertices; the graph is not modified and long augmenting paths do not '
     'exhaust the stack.',
     ['inputs'], 'all bipartite graphs of any size, also with the same '
     'object used on both sides',
     'Only reached indirectly by tests; nothing checks the optimum.',
     'bipartite_matching.py',
     [('Hopcroft-Karp phases', 'bipartite_matching.py: matching'),
      ('alternating layers give the independent set',
       'bipartite_matching.py: matching')],
     'Koenig certificate plus independent augmenting-path matcher')
prop('C03', 'Imperfection graph lists exactly the edges in no perfect matching',
     'For every bipartite graph, the imperfections function returns the '
     'subgraph of exactly those edges that belong to no perfect matching of '
     'the graph. When the graph has no perfect matching, that is every '
     'edge.',
     ['inputs'], 'all bipartite graphs',
     'Untested; correctness depends on strong components of a derived graph '
     'for every input shape.',
     'bipartite_matching.py strong_connectivity.py',
     [('strong components of the matched orientation',
       'bipartite_matching.py: imperfections')],
     'edge-deletion oracle: an edge is perfect iff the rest still has a '
     'perfect matching')
prop('C04', 'Hamiltonian cycles of cubic graphs are all listed once',
     'For every undirected graph of maximum degree three, the generator of '
     'Hamiltonian cycles yields each Hamiltonian cycle exactly once, as an '
     'undirected graph on all vertices using only edges of the input. '
     'Graphs with a higher degree or a one-way edge are refused with '
     'ValueError, graphs without a Hamiltonian cycle yield nothing, and the '
     'input is left as it was even when the generator is abandoned.',
     ['inputs', 'histories'], 'all graphs of degree at most three, and '
     'points at which the generator is abandoned',
     'The tests count cycles of five named graphs.',
     'cubic_ham.py',
     [('forced edges, contraction and undo actions',
       'cubic_ham.py: hamiltonian_cycles')],
     'exhaustive path extension')
# --- searches --------------------------------------------------------------
prop('C05', 'Depth- and breadth-first searches follow their discipline',
     'Depth-first search of any directed graph reports each reached vertex '
     'once, classifies each followed edge once, as forward, reverse or '
     'nontree, in properly nested stack order, covers all vertices or '
     'exactly those reachable from a given start, and its preorder, '
     'postorder and reachability helpers agree with that trace. '
     'Breadth-first levels hold exactly the vertices at each distance, with '
     'exactly their edges to the next level. '
     'Subclass callbacks see the same trace, and path length is not '
     'limited by the recursion limit.',
     ['inputs'], 'all directed graphs and start vertices',
     'No test observes the order of events; the stack discipline ranges over '
     'all graphs.',
     'dfs.py bfs.py',
     [('explicit-stack generator of events', 'dfs.py: search'),
      ('callbacks', 'dfs.py: Searcher'),
      ('levels', 'bfs.py: breadth_first_levels')],
     'trace specification of a stack, replayed event by event')
prop('C06', 'Strong components are exactly the mutual reachability classes',
     'For every directed graph the strongly connected components partition '
     'the vertices so that two vertices share a component exactly when each '
     'reaches the other, and each component carries precisely the edges '
     'among its vertices. The condensation has one vertex per component, '
     'and an edge from one to another exactly when the graph has such an '
     'edge.',
     ['inputs'], 'all directed graphs',
     'Tests check three small fixed graphs.',
     'strong_connectivity.py dfs.py',
     [('path-based component search', 'strong_connectivity.py: '
       'StronglyConnectedComponents'),
      ('condensation', 'strong_connectivity.py: Condensation')],
     'transitive closure by repeated search')
prop('C07', 'Topological orders, acyclicity, closure and reachability',
     'A topological order of an acyclic graph lists every vertex once with '
     'each edge going forward, and a cyclic graph makes it fail with '
     'ValueError, consistent with the acyclicity test; an order is accepted '
     'by the order test exactly when it lists every vertex exactly once '
     'with no edge going backward. The transitive closure, and the '
     'reachability structure of acyclic graphs, relate two vertices '
     'exactly when a path leads from one to the other.',
     ['inputs'], 'all directed graphs and all candidate orders',
     'Tests use one small graph for orders and random graphs of a single '
     'kind for reachability.',
     'partial_order.py acyclic_reachability.py',
     [('reverse postorder', 'partial_order.py: TopologicalOrder'),
      ('closure', 'partial_order.py: TransitiveClosure'),
      ('bit vectors', 'acyclic_reachability.py: Reachability')],
     'closure by search and edge-by-edge order check')
prop('C08', 'Path covers, chain covers and antichains of DAGs are optimal',
     'The minimum path decomposition partitions the vertices into the '
     'fewest paths of the graph, the minimum chain decomposition into the '
     'fewest chains of the reachability order, and the maximum antichain is '
     'a set of pairwise unreachable vertices of maximum size, equal to the '
     'number of chains. Cyclic graphs are refused with ValueError where a '
     'partial order is required.',
     ['inputs'], 'all directed acyclic graphs',
     'No test checks optimality.',
     'partial_order.py bipartite_matching.py',
     [('split graph matching', 'partial_order.py: '
       'MinimumPathDecomposition'),
      ('closure then matching', 'partial_order.py: '
       'MinimumChainDecomposition'),
      ('independent set of the split graph', 'partial_order.py: '
       'MaximumAntichain')],
     'Dilworth certificate: chains and antichain of equal size, and '
     'independent matching size')
# --- graph structure -------------------------------------------------------
prop('C09', 'Biconnected components and biconnectivity test are exact',
     'The biconnected components of an undirected graph are exactly its '
     'maximal subgraphs without a cut vertex, each edge in exactly one of '
     'them and isolated vertices alone. The biconnectivity test accepts a '
     'graph exactly when it is connected, has no cut vertex, and all its '
     'edges run both ways.',
     ['inputs'], 'all undirected graphs, and nearly undirected ones for the '
     'test',
     'Tests cover four graphs.',
     'biconnectivity.py dfs.py',
     [('component search', 'biconnectivity.py: BiconnectedComponents'),
      ('low points', 'biconnectivity.py: BiconnectivityTester')],
     'vertex-deletion oracle')
prop('C10', 'st-orientations have one source, one sink and no cycle',
     'For every biconnected undirected graph with an edge, st-orientation '
     'directs each edge exactly once so that the result is acyclic with a '
     'single source and a single sink. Any '
     'graph that is not biconnected, including disconnected and one-way '
     'graphs, is refused.',
     ['inputs'], 'all undirected graphs on at least two vertices',
     'Tests orient four graphs and check little of the result.',
     'biconnectivity.py',
     [('incremental insertion of ears', 'biconnectivity.py: STOrienter')],
     'edge-by-edge definition check')
prop('C11', 'Bipartiteness answers are certified both ways',
     'Two-colouring, bipartition and bipartite orientation succeed exactly '
     'on bipartite graphs and give a proper colouring, the two colour '
     'classes, and the edges from one class to the other; otherwise the '
     'dedicated error is raised and the test says no. The odd core is '
     'exactly the union of the non-bipartite blocks.',
     ['inputs'], 'all undirected graphs, connected or not',
     'Tests use a handful of cycles.',
     'bipartite.py biconnectivity.py',
     [('search colouring', 'bipartite.py: two_color'),
      ('blocks with odd cycles', 'bipartite.py: odd_core')],
     'independent colouring and block decomposition')
prop('C12', 'Lexicographic breadth-first search and chordality are exact',
     'Lexicographic breadth-first search visits every vertex once and '
     'always next a vertex whose list of earlier visited neighbours is '
     'lexicographically largest. A graph is called chordal exactly when '
     'every cycle of four or more vertices has a chord; then the '
     'elimination order lists every vertex so that the later neighbours of '
     'each form a clique, and otherwise ValueError is raised.',
     ['inputs'], 'all undirected graphs',
     'Tests check two cases of chordality and no visiting order.',
     'lex_bfs.py chordal.py partition_refinement.py sequence.py',
     [('partition refinement of a sequence of sets', 'lex_bfs.py: lex_bfs'),
      ('clique test along the order', 'chordal.py: '
       'perfect_elimination_ordering')],
     'label-greedy specification replayed on the order; simplicial '
     'elimination oracle')
prop('C13', 'Degeneracy sequence, cores and triangles are exact',
     'The degeneracy sequence removes, at each step, a vertex of minimum '
     'remaining degree, each vertex once; the degeneracy is the largest '
     'degree so met and the degeneracy orientation directs each edge once '
     'with no vertex having more outgoing edges than that. The k-core is '
     'the unique largest subgraph of minimum degree at least k, by default '
     'the deepest nonempty one, and every triangle is listed exactly once.',
     ['inputs'], 'all undirected graphs with at least one vertex, all k',
     'Tests use three graphs.',
     'graphdegeneracy.py bucketqueue.py',
     [('bucket queue of degrees', 'graphdegeneracy.py: '
       'degeneracySequence'),
      ('orientation triangles', 'graphdegeneracy.py: triangles')],
     'step-by-step degree monitor; repeated-deletion and triple oracles')
# --- data structures -------------------------------------------------------
prop('C14', 'Bucket queue behaves as a priority queue over any history',
     'Over any history of setting, changing, deleting and looking up '
     'integer priorities, membership, length and lookups equal those of a '
     'plain map, and each extraction removes and reports an item of minimum '
     'current priority (with that priority when asked for), also when the '
     'queue is modified between extractions. Non-integer priorities and '
     'absent items are refused without changing the queue.',
     ['histories'], 'all operation histories, priorities of either sign, '
     'modification during extraction',
     'No direct test; only exercised through degeneracy.',
     'bucketqueue.py',
     [('buckets with a lower bound on the minimum', 'bucketqueue.py: '
       'BucketQueue')],
     'history checker with a map model')
prop('C15', 'Integer heaps behave as sets of integers with minimum',
     'Every integer heap kind, for every word size it supports, behaves '
     'over any history of add, remove, minimum and emptiness queries as a '
     'set of the integers in range: duplicates have no effect, the minimum '
     'is exact, removing what is absent fails or is ignored as documented '
     'for that kind and changes nothing, and the minimum of an empty heap '
     'is refused.',
     ['histories', 'configurations'], 'all histories over every heap kind '
     'and size',
     'Tests run one random insertion and removal pattern.',
     'integer_heap.py',
     [('recursive universe reduction', 'integer_heap.py: FlatHeap'),
      ('bit vector', 'integer_heap.py: BitVectorHeap'),
      ('choice of kind', 'integer_heap.py: IntegerHeap')],
     'history checker with a set model')
prop('C16', 'Union-find maintains the exact partition',
     'Over any history of find and union over hashable items, two items '
     'have the same representative exactly when they were joined directly '
     'or indirectly; every representative is an item of its own set and '
     'stays the same until the set takes part in a union. Items need not '
     'be orderable, and iteration gives each item seen so far once.',
     ['histories'], 'all histories over all kinds of items',
     'No direct test; only used inside spanning trees.',
     'union_find.py',
     [('weighted union', 'union_find.py: UnionFind.union'),
      ('path compression', 'union_find.py: UnionFind.__getitem__')],
     'history checker with an explicit partition')
prop('C17', 'Minimum spanning forests are minimum',
     'For every weighted undirected graph the returned edges form a '
     'spanning forest, one tree per component, of minimum total weight, '
     'each edge once. Vertices need not be orderable; a graph with a '
     'one-way or asymmetric edge is refused.',
     ['inputs'], 'all weighted undirected graphs, ties, negative weights '
     'and disconnected graphs included',
     'One test on one graph.',
     'minimum_spanning_tree.py union_find.py',
     [('sorted edges with union-find', 'minimum_spanning_tree.py: '
       'MinimumSpanningTree')],
     'independent Prim forest weight')
prop('C18', 'Linked sequences behave as lists under every edit',
     'Over any history of append, insertion before or after an item, '
     'removal, predecessor and successor queries, indexing, iteration, '
     'length and printing, a sequence agrees with a plain list without '
     'repetitions. Duplicate insertions, absent items and out-of-range '
     'positions are refused with the documented errors and change nothing, '
     'also when items are addressed through a key.',
     ['histories'], 'all edit histories, hashable or keyed items',
     'No direct test.',
     'sequence.py',
     [('circular links in dictionaries', 'sequence.py: Sequence')],
     'history checker with a list model')
prop('C19', 'Ordered sequences compare positions correctly forever',
     'Over any history of edits of an ordered sequence, the position '
     'comparison of two members equals the order of their positions in the '
     'corresponding list, for both implementations, however many '
     'insertions hit the same place. All the guarantees of plain sequences '
     'hold as well.',
     ['histories'], 'all edit histories, including long runs at one place',
     'No test exists; relabelling only happens after long histories.',
     'ordered_sequence.py sequence.py',
     [('tags with rebalancing', 'ordered_sequence.py: '
       'LogarithmicOrderedSequence'),
      ('renumbering', 'ordered_sequence.py: SimpleOrderedSequence')],
     'history checker comparing all pairs after each edit')
prop('C20', 'Partition refinement splits exactly and reports every change',
     'Over any history, refining by a collection splits each class into its '
     'members in and out of the collection, reports exactly the classes '
     'that changed as pairs of a new set and the old set object reduced, '
     'and leaves all others the same objects. Lookup, iteration, length, '
     'addition, removal and freezing stay consistent with the exact '
     'partition, and misuse is refused without change.',
     ['histories'], 'all histories, collections with repetitions and '
     'foreign items',
     'No direct test.',
     'partition_refinement.py',
     [('hit sets', 'partition_refinement.py: PartitionRefinement.refine')],
     'history checker with an explicit partition, watching object identity')
prop('C21', 'Sorted sets iterate in order after any history',
     'Over any history of additions, removals, re-ordering notices and '
     'iterations, iterating lists every current member exactly once in '
     'order of the comparison in force, length is exact, and removing an '
     'absent item fails.',
     ['histories'], 'all histories, default and custom comparisons, members '
     'whose order changes',
     'Tests cover four short histories.',
     'sorted_set.py',
     [('merge of previous order with changes', 'sorted_set.py: SortedSet')],
     'history checker with a freshly sorted set')
prop('C22', 'Range minima and lowest common ancestors are exact',
     'For every nonempty sequence, each range-minimum structure returns the '
     'minimum of every nonempty slice; for every rooted tree, the lowest '
     'common ancestor of any nonempty selection of nodes is their deepest '
     'shared ancestor. The offline version agrees for all pairs, trees may '
     'be deeper than the recursion limit, nodes need not be orderable, and '
     'unsupported slices are refused.',
     ['inputs'], 'all sequences, slices, trees and node selections',
     'Tests use one sequence and one small tree.',
     'lca.py',
     [('block decomposition', 'lca.py: RangeMin, RestrictedRangeMin'),
      ('Euler tour', 'lca.py: LCA'),
      ('union-find traversal', 'lca.py: OfflineLCA')],
     'direct minima and ancestor walks')
# --- special graph classes ---------------------------------------------------
prop('C23', 'Recognition of Halin, D3-reducible, wheel and dual 3-tree graphs',
     'The recognisers for Halin graphs, D3-reducible graphs, wheels, duals '
     'of planar 3-trees and K4 accept exactly the undirected graphs with '
     'that structure and reject all others, without modifying the graph.',
     ['inputs'], 'all undirected graphs without self-loops',
     'Tests cover a dozen graphs.',
     'halin.py',
     [('reduction stack', 'halin.py: is_D3_reducible'),
      ('outer K4 test', 'halin.py: is_outer_K4, is_halin')],
     'brute force over leaf sets and reduction sequences')
prop('C24', 'Halin leaf sets and Hamiltonian cycles are valid',
     'For every Halin graph the reported leaf set is the outer cycle of a '
     'valid Halin structure: removing its cycle edges leaves a tree whose '
     'leaves are exactly that set. For every D3-reducible graph the '
     'Hamiltonian cycle visits each vertex once along edges of the graph; '
     'other graphs are refused with TypeError.',
     ['inputs'], 'all Halin and D3-reducible graphs',
     'Tests check a few graphs.',
     'halin.py',
     [('undoing reductions', 'halin.py: reconstruct_D3'),
      ('leaf vertices', 'halin.py: halin_leaf_vertices'),
      ('cycle', 'halin.py: hamiltonian_cycle_D3')],
     'definition check on the result')
prop('C25', 'Media act, reverse, route and embed consistently',
     'In every medium representation (explicit tables, bit vectors, '
     'labelled graphs) the action of tokens on states and the reversal of '
     'tokens are those of the given system, the transition graph and its '
     'relabelling describe the same actions, routing tables lead from every '
     'state to every other along a shortest path, and hypercube embeddings '
     'preserve distance. Labelled graphs in which a token has two effects on '
     'one state or two reverses, and systems in which two tokens lead from '
     'one state to the same other state, are refused with the dedicated '
     'error.',
     ['inputs'], 'all finite media, in every representation',
     'Tests use a few small examples.',
     'medium.py',
     [('breadth-first verification', 'medium.py: RoutingTable'),
      ('concise messages', 'medium.py: HypercubeEmbedding'),
      ('representations', 'medium.py: ExplicitMedium, BitvectorMedium, '
       'LabeledGraphMedium')],
     'Hamming-distance model')
prop('C26', 'Partial cubes are recognised and labelled exactly',
     'A graph is recognised as a partial cube exactly when it is an '
     'isometric subgraph of a hypercube. The vertex labels then differ in '
     'exactly as many bits as the graph distance, edge labels group edges '
     'into the equivalence classes of parallel edges, and the derived '
     'medium acts along the edges; other graphs are refused with the '
     'dedicated error.',
     ['inputs'], 'all undirected graphs',
     'Tests use five graphs.',
     'partial_cube.py medium.py',
     [('bit-parallel labelling', 'partial_cube.py: '
       'PartialCubeEdgeLabeling'),
      ('verification as a medium', 'partial_cube.py: '
       'MediumForPartialCube')],
     'Djokovic-Winkler criterion from distances')
prop('C27', '2-satisfiability answers are exact',
     'For every implication graph over literals, satisfiability is decided '
     'exactly, symmetrising adds precisely the contrapositives, and the '
     'forced assignment gives exactly the variables that have the same '
     'value in every satisfying assignment, with that value; unsatisfiable '
     'systems have none.',
     ['inputs'], 'all implication systems over any hashable variables',
     'Tests use a few fixed instances.',
     'two_satisfiability.py _not.py acyclic_reachability.py '
     'strong_connectivity.py',
     [('components containing a literal and its negation',
       'two_satisfiability.py: Satisfiable'),
      ('reachability from negation', 'two_satisfiability.py: Forced')],
     'all assignments by brute force')
prop('C28', 'Symbolic negation is an involution compatible with equality',
     'Negating twice gives back the value itself, two negations are equal '
     'exactly when their values are, a negation never equals its value or '
     'any unnegated value, equal negations have equal hashes, and '
     'constructing a negation of a negation directly is refused.',
     ['inputs'], 'all pairs of values, including equal values of different '
     'types and unhashable ones',
     'Three tests on fixed values.',
     '_not.py',
     [('wrapper class', '_not.py: SymbolicNegation'),
      ('unwrapping', '_not.py: Not')],
     'algebraic laws over value pairs')
# --- languages -----------------------------------------------------------------
prop('C29', 'Regular languages have exact membership and algebra',
     'A language built from a regular expression, an automaton, or by '
     'union, intersection, symmetric difference, complement or reversal '
     'contains exactly the words that the definition of that operation '
     'gives. Emptiness, '
     'truth value and inclusion tests follow from membership, and malformed '
     'expressions or mixed alphabets are refused with the dedicated errors.',
     ['inputs'], 'all expressions, automata, alphabets and words',
     'Tests check a few expressions and words.',
     'automata.py',
     [('expression compiler', 'automata.py: RegExp'),
      ('subset and product constructions', 'automata.py: _DFAfromNFA, '
       '_ProductDFA'),
      ('operators', 'automata.py: RegularLanguage')],
     'independent derivative-style matcher on all short words')
prop('C30', 'Minimisation, equality and rewriting keep the language',
     'Minimising an automaton gives one that accepts the same language with '
     'the fewest possible states, two languages compare equal exactly when '
     'they contain the same words, and rewriting a language as a regular '
     'expression and reading it back gives an equal language. Renumbering '
     'an automaton, or converting it between deterministic and '
     'nondeterministic form, keeps its language, and its printed form lists '
     'every state and every transition once.',
     ['inputs'], 'all deterministic automata and regular languages',
     'Tests compare a few expressions.',
     'automata.py partition_refinement.py sequence.py',
     [('partition refinement', 'automata.py: _MinimumDFA'),
      ('isomorphism of minimal automata', 'automata.py: DFA'),
      ('state elimination', 'automata.py: NFA.RegExp')],
     'Moore refinement and product-automaton oracles')
# --- numbers and combinatorial generators --------------------------------------
prop('C31', 'Primes, factorisations, Moebius values and practical numbers',
     'The prime generator lists exactly the primes in order, the factored '
     'integers give each integer with its exact prime factorisation, the '
     'Moebius sequence and function agree with the definition in any query '
     'order, and the practical numbers are exactly those that are '
     'practical. Several generators running at once, and results kept by '
     'the caller, do not affect one another.',
     ['inputs', 'schedules'], 'all prefixes and interleavings of generators',
     'Tests check short prefixes, one generator at a time.',
     'eratosthenes.py',
     [('incremental sieve', 'eratosthenes.py: primes, factored_integers'),
      ('cached sequence', 'eratosthenes.py: moebius_function')],
     'trial division')
prop('C32', 'Lyndon words, factorisations and de Bruijn sequences',
     'The generators list exactly the Lyndon words of the requested '
     'lengths, once each in the documented order, their count formula '
     'matches, and de Bruijn sequences contain every word of the length '
     'exactly once cyclically. Factorisation splits any sequence into '
     'nonincreasing Lyndon words that concatenate back to it; smallest '
     'suffix, smallest rotation and the Lyndon test follow their '
     'definitions.',
     ['inputs'], 'all alphabets, lengths and sequences',
     'Tests use a few sizes.',
     'lyndon.py eratosthenes.py',
     [('Duval generation', 'lyndon.py: LengthLimitedLyndonWords'),
      ('Duval factorisation', 'lyndon.py: ChenFoxLyndonBreakpoints')],
     'definitions by exhaustive comparison')
prop('C33', 'Integer partition generators are complete and ordered',
     'Each partition generator yields every partition of its kind (all, '
     'into powers of two, into a fixed number of parts) exactly once, each '
     'summing to the given number with parts in nonincreasing order, in '
     'reverse lexicographic, lexicographic or otherwise documented order. '
     'Conjugation transposes the diagram of any partition and is its own '
     'inverse; generators running at once do not disturb one another.',
     ['inputs', 'schedules'], 'all nonnegative integers and lengths, '
     'interleaved generators',
     'Tests count partitions for small numbers.',
     'integer_partitions.py',
     [('in-place successor', 'integer_partitions.py: mckay, '
       'lex_partitions, binary_partitions, fixed_length_partitions')],
     'independent recursive enumeration')
prop('C34', 'Permutation generators make minimal changes and miss nothing',
     'Plain changes list every permutation of the items once, each from '
     'the last by one adjacent swap at the reported place; the double '
     'permutations, Stirling permutations and involutions generators each '
     'list every object of their kind once by the documented single '
     'changes. Items may be equal or unorderable, and the caller sees the '
     'same sequence however generators are interleaved.',
     ['inputs', 'schedules'], 'all item sequences and orders, interleaved '
     'generators',
     'Tests check small orders only.',
     'permutations.py',
     [('recursive change sequences', 'permutations.py: PlainChanges, '
       'DoublePlainChanges, StirlingChanges, InvolutionChanges')],
     'direct enumeration and step-by-step change monitor')
# --- sequences -------------------------------------------------------------------
prop('C35', 'Longest common subsequences are common and longest',
     'For any two sequences the result is a subsequence of both and no '
     'longer common subsequence exists; items need only be comparable for '
     'equality, and the inputs are not modified.',
     ['inputs'], 'all pairs of sequences of any items',
     'Two tests.',
     'lcs.py',
     [('dynamic program', 'lcs.py: longest_common_subsequence')],
     'second dynamic program')
prop('C36', 'Longest increasing subsequences are longest, smallest, earliest',
     'For any sequence of comparable items the result is a strictly '
     'increasing subsequence of maximum length, ending with the smallest '
     'value that can end one, at its earliest suitable occurrence.',
     ['inputs'], 'all sequences, repeated and equal-but-distinct values '
     'included',
     'Four tests.',
     'longest_increasing_subsequence.py',
     [('patience heads', 'longest_increasing_subsequence.py: '
       'longest_increasing_subsequence')],
     'quadratic dynamic program with object identity')
prop('C37', 'Column minima of concave matrices are exact',
     'For every concave (totally monotone) matrix, the offline search '
     'returns for every column its minimum value and the earliest row that '
     'attains it, whatever the row and column labels are.',
     ['inputs'], 'all matrices satisfying the documented condition, ties '
     'included',
     'No test exists.',
     'smawk.py',
     [('reduce and interpolate', 'smawk.py: ConcaveMinima')],
     'column scan')
prop('C38', 'Online concave minima are exact and never look ahead',
     'For every concave online recurrence, values and minimising indices '
     'asked for in any order, by iteration or directly, are the exact '
     'minima over earlier positions, and the cost function is only asked '
     'about pairs whose earlier value is already known.',
     ['inputs', 'histories'], 'all concave cost functions and query orders',
     'No test exists.',
     'smawk.py',
     [('Galil-Park advance', 'smawk.py: OnlineConcaveMinima')],
     'quadratic dynamic program and an instrumented cost function')
prop('C39', 'Paragraph wrapping keeps the words and minimises the penalty',
     'Wrapping any text keeps every word, hyphen and sentence space in '
     'order, breaks only at spaces and after hyphens, and chooses breaks of '
     'minimum total penalty for the given options.',
     ['inputs', 'configurations'], 'all texts, widths, measures and penalty '
     'options',
     'The module could not even be imported by the tests.',
     'wrap.py smawk.py',
     [('concave dynamic program', 'wrap.py: wrap')],
     'exhaustive quadratic dynamic program')
prop('C40', 'Frequency estimates stay within the promised accuracy',
     'At every moment of any stream, each estimate lies between the true '
     'frequency minus the accuracy and the true frequency, every key more '
     'frequent than the accuracy is listed, and no more keys are kept than '
     'the accuracy allows.',
     ['histories'], 'all streams and accuracies',
     'No test exists.',
     'frequencyestimator.py',
     [('counter decrements', 'frequencyestimator.py: FrequencyEstimator')],
     'exact counts maintained beside the stream')
# --- input, output, geometry --------------------------------------------------------
prop('C41', 'Graph files are read exactly or refused',
     'Every valid file in each supported format (vertex and edge list with '
     'separator, edge list, sectioned node and edge list, GraphML, graph6, '
     'sparse6, LEDA), given as a file, lines or string, yields exactly the '
     'graph it describes, with symmetric adjacency and consistent, distinct '
     'edge identifiers. Malformed files, and those with self-loops, '
     'directed edges or unknown vertices, raise the dedicated format error.',
     ['inputs'], 'all files in the supported formats and malformed variants',
     'No test exists.',
     'read_undirected_graph.py',
     [('format detection', 'read_undirected_graph.py: '
       'readUndirectedGraph'),
      ('readers', 'read_undirected_graph.py: readMALF, readEdgeList, '
       'readNodeEdgeList, readGraphML, readGraph6, readSparse6, readLeda')],
     'independent encoders, round trip')
prop('C42', 'Nonrepetitive paths and cycles of labelled graphs are exact',
     'For every edge-labelled directed graph, the cyclic edges are exactly '
     'those on closed walks that never use one label twice in a row, '
     'reachable end points and labels are exactly those of such walks, and '
     'the shortest such walk is returned, or ValueError when there is none.',
     ['inputs'], 'all labelled directed graphs and query pairs',
     'No test exists.',
     'repetitivity.py',
     [('logarithmic label gadget', 'repetitivity.py: NonrepetitiveGraph')],
     'search over (edge, label) states')
prop('C43', 'Cubic matching partitions and xyz embeddings are complete',
     'For every biconnected cubic graph, the partitions of its edges into '
     'three perfect matchings are generated exactly once each up to order, '
     'and its xyz embeddings are exactly those partitions for which every '
     'axis-parallel line through a vertex contains exactly two vertices, '
     'the two being adjacent. Graphs that are not cubic or not undirected '
     'are refused with ValueError, those not biconnected with the '
     'dedicated error; point sets are recognised by the same line test.',
     ['inputs'], 'all cubic graphs and point sets',
     'Tests count embeddings of a few graphs.',
     'xyz_graph.py biconnectivity.py',
     [('st-ordered enumeration', 'xyz_graph.py: CubicMatchPartitions'),
      ('bicoloured cycles as coordinates', 'xyz_graph.py: '
       'xyzEmbeddings')],
     'backtracking edge colouring')
prop('C44', 'Circle packings realise the given triangulation',
     'For every triangulated disk with connected interior and positive '
     'boundary radii, the packing gives each boundary circle its radius and '
     'makes every two neighbouring circles tangent, with the neighbours of '
     'each interior circle going around it once. With three boundary '
     'circles no two circles overlap; nonpositive radii or overlapping keys '
     'are refused with ValueError.',
     ['inputs'], 'all triangulated disks and boundary radii',
     'No test exists.',
     'circle_pack.py',
     [('radius relaxation', 'circle_pack.py: circle_pack'),
      ('layout', 'circle_pack.py: place')],
     'tangency and angle monitors')
prop('C45', 'Inverting and normalising packings is exact',
     'Inverting a set of circles around a point gives exactly the image '
     'circles under the inversion, normalising scales everything so that '
     'the chosen (or smallest) circle has the target radius, and inverting '
     'around a circle makes it surround all others with the smallest of the '
     'chosen circles as large as possible relative to it.',
     ['inputs'], 'all finite sets of circles not through the centre',
     'No test exists.',
     'circle_pack.py',
     [('diameter images', 'circle_pack.py: InvertPacking'),
      ('hill climbing', 'circle_pack.py: InvertAround')],
     'image of sampled points; comparison with other centres')
prop('C46', 'SVG output is well-formed and faithful to the calls',
     'Any sequence of drawing calls produces well-formed output with one '
     'element per call in order and nesting, the given geometry to four '
     'decimals, the merged style with keywords overriding, and the '
     'requested prefix and indentation. Closing with unclosed groups is '
     'refused.',
     ['histories', 'configurations'], 'all sequences of drawing calls and '
     'options',
     'No test exists.',
     'svg.py',
     [('element writer', 'svg.py: SVG.element'),
      ('coordinates', 'svg.py: _coord')],
     'independent XML parse compared with the call log')
prop('C47', 'Integer points come in distance order, each once',
     'The generator of integer points lists every point of the plane '
     'exactly once in order of nondecreasing distance from the origin, at '
     'every prefix and with several generators interleaved.',
     ['inputs', 'schedules'], 'all prefixes and interleavings',
     'One test on a short prefix.',
     'integerpoints.py bucketqueue.py',
     [('priority queue of points', 'integerpoints.py: '
       'IntegerPointsByDistance')],
     'all points of the disk')
prop('C48', 'Named example graphs are the graphs they are named after',
     'Each named graph is isomorphic to the graph of that name in the '
     'literature, and each parametrised family (generalised Petersen and '
     'Coxeter graphs, cube-connected cycles, Hamiltonian chord codes) '
     'yields exactly the undirected, cubic graph its definition gives for '
     'every valid parameter.',
     ['inputs'], 'all named graphs and valid parameters',
     'Tests use them as inputs without checking them.',
     'graph_examples.py',
     [('constructions', 'graph_examples.py')],
     'independent constructions, isomorphism, girth and distance counts')
prop('C49', 'Basic graph utilities follow their set definitions',
     'The undirectedness test, degree extremes, independence test, copies, '
     'induced subgraphs and unions of graphs equal their set-theoretic '
     'definitions for every graph; copies, subgraphs and unions share no '
     'mutable state with the inputs and keep edge data where documented.',
     ['inputs'], 'all graphs and vertex sets',
     'No direct test.',
     'graphs.py util.py',
     [('utilities', 'graphs.py')],
     'set expressions over edges')


# --- sudoku ----------------------------------------------------------------
prop('C50', 'The Sudoku search produces exactly the solutions, each once',
     'For every Sudoku puzzle, with fast or full deduction rules, the search '
     'for all solutions produces exactly the completed grids that extend the '
     'clues and respect the placements already excluded, each exactly once, '
     'and nothing for a contradictory puzzle. The uniqueness test is true '
     'exactly when there is one solution.',
     ['inputs', 'configurations'], 'all puzzles, prior exclusions and rule '
     'selections',
     'The solver is not imported by any test.',
     'sudoku.py',
     [('backtracking over the deduction rules', 'sudoku.py: all_solutions')],
     'independent solver; multiset equality of the solutions')
prop('C51', 'Sudoku deductions never remove a solution',
     'Every deduction rule and every solver step only removes candidates or '
     'fills cells in agreement with every solution of the puzzle (for the '
     'rules that assume uniqueness: when the solution is unique), and a '
     'puzzle is rejected as bad only if it has no solution. A step reports '
     'progress exactly when the grid changed, and verbose logging neither '
     'fails nor changes what is deduced.',
     ['inputs', 'histories', 'configurations'], 'all puzzles, partial '
     'states, rule selections and logging settings',
     'Fifteen interacting rules without any test.',
     'sudoku.py repetitivity.py bipartite_matching.py two_satisfiability.py',
     [('deduction rules', 'sudoku.py: rules, step'),
      ('candidate masks', 'sudoku.py: Sudoku.unplace')],
     'all solutions of the puzzle are tracked through every step')
prop('C52', 'A stuck Sudoku grid admits none of the documented deductions',
     'When the solver reports that no rule makes progress, no candidate '
     'remains that the documented rules exclude: single places and choices, '
     'digits aligned between a line and a square, pairs, triads, single-row, '
     'column or square incompatibilities, digits without a full placement, '
     'and cycles, paths and conflicts of two-place digits and two-choice '
     'cells (and, when uniqueness is assumed, ambiguous rectangles and '
     'trapezoids). The same holds for each rule applied alone until it '
     'changes nothing.',
     ['inputs', 'configurations'], 'all puzzles and rule selections',
     'No test; a rule that silently finds less is invisible to a solver that '
     'can still guess.',
     'sudoku.py repetitivity.py bipartite_matching.py',
     [('deduction rules', 'sudoku.py: rules'),
      ('nonrepetitive walks', 'repetitivity.py')],
     'brute-force search for open deductions in the final candidates')
prop('C53', 'Generated Sudoku puzzles are unique and minimal; shuffles exact',
     'A generated puzzle has exactly one solution, loses uniqueness when any '
     'clue (any opposite pair of clues, in symmetric mode) is removed, and '
     'in symmetric mode has clues at opposite cells. A shuffled puzzle is '
     'the original up to renaming digits, reordering lines within bands and '
     'bands, and transposition, and keeps rotational symmetry when asked '
     'to; the original is unchanged.',
     ['inputs', 'configurations'], 'all random seeds, puzzles and symmetry '
     'settings',
     'No test exists.',
     'sudoku.py',
     [('generation', 'sudoku.py: random_puzzle'),
      ('shuffling', 'sudoku.py: permute')],
     'independent solver and a search for the equivalence')
prop('C54', 'Sudoku output formats, reader and program agree',
     'Each output format (text, numeric, HTML, SVG) shows exactly the digits '
     'of the grid in their cells, and the reader recovers a grid from text '
     'with any characters declared as empty, ignoring others. The '
     'command-line program, for every combination of its options, prints '
     'the puzzle, its solutions and their number as requested, labels '
     'exactly unsolved or backtracked puzzles impossible, and logs only '
     'when asked.',
     ['inputs', 'configurations'], 'all grids, formats and option '
     'combinations',
     'No test runs the program.',
     'sudoku.py svg.py wrap.py',
     [('output functions', 'sudoku.py: output_formats'),
      ('main program', 'sudoku.py')],
     'independent parsers of the four formats')
prop('C55', 'Sudoku grids track placements and exclusions exactly',
     'After any sequence of placements and exclusions the contents, the '
     'choices of every cell, completeness and the progress flag of a grid '
     'are exactly those implied by the sequence: a placed digit leaves its '
     'row, column and square. Placing an excluded or second digit is '
     'rejected as a bad puzzle, digits outside 1 to 9 as bad values, both '
     'without effect; grids made from other grids are independent.',
     ['histories', 'inputs'], 'all call sequences and input forms',
     'No test exists.',
     'sudoku.py',
     [('candidate masks', 'sudoku.py: Sudoku.place, Sudoku.unplace')],
     'model with one set of digits per cell, compared after every call')

# --- interplay -------------------------------------------------------------
prop('C56', 'Generators and functions do not disturb one another',
     'Any number of the library\'s generators may be advanced in any order, '
     'abandoned or restarted, with the same or different arguments, and each '
     'yields what it yields when run alone. Calling a function again with '
     'the same argument gives the same result even if the caller has '
     'modified the first result, and arguments stay unmodified.',
     ['schedules', 'histories'], 'all interleavings of generators and calls',
     'No test runs two generators at once.',
     'permutations.py eratosthenes.py lyndon.py dfs.py cubic_ham.py '
     'integer_partitions.py lex_bfs.py bfs.py',
     [('generator state', 'all generator functions')],
     'sequential runs of the same generators')
