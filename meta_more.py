EN, GE, OP = CO + 'enumeration/enumeration.py', CO + 'generation/', CO + 'optimization/'
P('C01', 'Generators of permutations, variations and combinations are complete',
  'Permuting any list yields every distinct arrangement of its elements exactly once, for lists with repeated elements too where the function documents it, and in lexicographic order for the '
  'lexicographic generators. Variations and r-variations yield every tuple over the elements once, and combinations(n, t) every t-subset of 0..n-1 once.',
  'all lists (any equalities between elements) and all sizes', 'Multisets with particular repetition patterns and boundary sizes are not among the sampled lists.',
  [GE + 'permutations.py', GE + 'combinations.py'], 'phillips; knuth_algorithm_l; knuth_algorithm_l_variations; combinations @ ' + GE + 'combinations.py')
P('C02', 'Generators of integer partitions and tuples are complete',
  'Each partition generator yields every partition of n of the requested kind (unrestricted, fixed number of parts, distinct parts, given allowed parts) exactly once and nothing else. '
  'The tuple generator yields every tuple below the given bounds exactly once.',
  'all n, all numbers of parts, all sets of allowed parts, all bounds', 'Boundary arguments (0, more parts than n) and unusual sets of allowed parts are not sampled.',
  [GE + 'partitions.py', GE + 'tuples.py'], 'integer_partitions; n_tuples @ ' + GE + 'tuples.py')
P('C03', 'Enumeration formulas agree with their combinatorial definitions',
  'Bell, Stirling, binomial and multinomial numbers, partition numbers and their r-th power and bipartite variants, domino and triomino tiling counts and necklace counts equal the number of objects '
  'they are defined to count, including zero where there is none. Arguments outside the domain raise ValueError.',
  'all arguments', 'Each table value is a separate claim; tests fix a few values and the boundary cases are not among them.',
  [EN], 'bell_number; stirling_number2; binomial; multinomial; partition_list; necklaces; triomino_tilings')
P('C04', 'Knapsack solvers return an optimal feasible selection',
  'For any items and capacity the reported value is the maximum over all selections of the items that fit, and the selection returned is made of the given items, fits, and has the reported value. '
  'This holds for the exhaustive search, dynamic programming and branch and bound (for positive weights).',
  'all values, weights and capacities', 'A bound that prunes too much loses optimality only on particular value and weight combinations.',
  [OP + 'knapsack.py'], 'depth_first; dynamic_programming; branch_and_bound_depth_first')
HP, UF, BS = DS + 'heaps.py', DS + 'unionfind.py', DS + 'bit_sieve.py'
GA = GR + 'algorithms/'
P('C05', 'Tour construction returns valid tours with their true lengths',
  'Exhaustive search and branch and bound return a shortest tour through all points for any distance matrix; insertion and exchange heuristics return a tour of all points together with its exact length, and '
  'the exchange heuristics end where no exchange of two edges shortens the tour. The Euclidean distance matrix and the tour length are the defined ones.',
  'all matrices of non-negative distances', 'A wrong bound or a stale length shows only on particular combinations of distances.',
  [OP + 'tsp.py', OP + 'genetic_tsp.py'], 'depth_first; branch_and_bound; farthest_insertion; steepest_ascent_two_opt; two_opt; TravelingSalesman.solve @ ' + OP + 'genetic_tsp.py')
P('C06', 'Exact cover solvers return every exact cover exactly once',
  'For any family of sets and target, the solvers yield every selection of the sets that partitions the target exactly once and nothing else, and counting agrees with listing. The encodings of Langford '
  'pairings, domino tilings, latin squares and sudokus yield exactly the objects they are named after.',
  'all families of subsets, all puzzles', 'Covering, uncovering and choosing a column interact in ways that only particular families exercise.',
  [OP + 'exact_cover.py'], 'algorithmx; algorithm_dlx; ExactCoverBinary.solutions; langford_pairings; domino_tilings; sudoku_dlx')
P('C07', 'Alphametic solver finds every solution of a puzzle',
  'For any word addition puzzle the solver returns exactly the assignments of distinct digits to letters, with no leading zero, for which the sum holds; none are missed or repeated.',
  'all puzzles, all digit assignments', 'Carries, repeated letters and words of different length combine in too many ways to sample.',
  [CO + 'recreational/alphametics.py'], 'solve')
P('D01', 'Heaps return their elements in order under any history of operations',
  'After any sequence of insertions, deletions, decreases of a key and merges, find-min and delete-min return a least element of the elements present, sizes are right, and iterating yields all of them in '
  'nondecreasing order. No element is lost or duplicated.',
  'all histories of operations and all keys', 'Structural errors show only after particular histories with particular orders of keys.',
  [HP], 'LeftistHeap.merge; LeftistHeap.delete_min; PairingHeap.decrease_key; PairingHeap.delete_min', over=('inputs', 'histories'))
P('D02', 'Union-find structures keep the partition generated by the unions',
  'After any sequence of unions, two elements have the same representative exactly if they are connected by the unions made so far, whatever finds were made in between. In the named variant the '
  'representative of a set is the name given by the last union that made it.',
  'all histories of unions and finds', 'Path compression and ranks depend on the history.', [UF], 'UnionFind.union; UnionFind.find; NamedUnionFind.union; NamedUnionFind.find', over=('inputs', 'histories'))
P('D03', 'Prefix-sum sieves count the unmarked entries',
  'After any sequence of marking steps, a prefix sum equals the number of entries up to it that are still unmarked, for every prefix, and marking twice counts once.',
  'all sizes and histories of marking', 'Off-by-one errors at block or power-of-two boundaries.', [BS], 'BITSieve.partial_sum; BITSieve.mark_multiples; BITSieveArray.partial_sum', over=('inputs', 'histories'))
P('G01', 'Graphs stay consistent under any history of edits',
  'After any sequence of adding and removing vertices and edges, every query (vertices, edges, weights, degrees, neighbors, leaves, counts, density, induced subgraphs) answers for exactly the graph those edits '
  'define, and adjacency stays symmetric. A copy is independent of its original.',
  'all histories of edits and all weights', 'Broken symmetry or shared structure shows only after particular sequences.', [GR + 'graphs.py'],
  'Graph.add_edge; Graph.delete_vertex; Graph.remove_closed_neighborhood; Graph.induced_subgraph; Graph.copy', over=('inputs', 'histories'))
P('G02', 'Graph complements, matrices and named families are as defined',
  'The complement has exactly the missing edges, and adjacency, degree and Laplacian matrices have the defined entries. Complete, Petersen, odd, grid, coprime-pairs and random graphs have the defined vertices and '
  'edges for every size, and files in the supported formats load as the graph they list.',
  'all graphs, all family sizes', 'Boundary sizes and large labels are not sampled.', [GR + 'graphs.py'], 'Graph.complement; Graph.laplacian_matrix; odd_graph; grid_graph; random_graph; load_graph')
P('G03', 'Traversals and connectivity agree with reachability',
  'Breadth- and depth-first searches visit exactly the vertices reachable from the start, each once, in breadth-first or depth-first order, and their trees have parents that are neighbors (at one less distance for '
  'breadth-first). Connected components partition the vertices by reachability.',
  'all graphs, start vertices and depth limits', 'Quantifies over all graphs.', [GA + 'traversal.py', GA + 'connectivity.py'],
  'breadth_first_search; depth_first_search; breadth_first_search_tree; connected_components @ ' + GA + 'connectivity.py')
P('G04', 'Shortest path algorithms return shortest distances and paths',
  'For any graph with non-negative weights every algorithm returns the least weight of a path to each vertex (infinite if there is none), with predecessors or a path that attain it, and the incremental search yields vertices in order of '
  'distance. Negative cycles and unknown vertices raise ValueError.',
  'all graphs, weights and end points', 'Stopping too early or relaxing wrongly shows only for particular orders among the weights.', [GA + 'paths.py'],
  'dijkstra; dijkstra_bidirectional; dijkstra_buckets; bellman_ford; floyd_warshall')
P('G05', 'Minimum spanning tree algorithms return minimum spanning trees',
  'Every algorithm returns edges of a spanning tree (of a spanning forest if the graph is not connected; of the component of the root for Prim) of least total weight, with that weight. The enumeration of '
  'spanning trees yields each spanning tree once, in nondecreasing order of weight.',
  'all graphs, weights, roots and random choices', 'Ties and the order among weights decide which branch runs.', [GA + 'spanning_trees.py'],
  'prim; kruskal; cheriton_tarjan; gabow')
P('G06', 'Steiner tree heuristics return trees within their guarantee',
  'For a connected graph with non-negative weights and any terminals, the result is a tree of graph edges that contains the terminals and whose other vertices are not leaves, with its exact weight. The weight is at most '
  '2(1 - 1/t) times the least weight of a tree that spans the t terminals.',
  'all weights and sets of terminals', 'The ratio and validity must hold for every combination of weights.', [GA + 'steiner_trees.py'],
  'distance_network_heuristic; minimum_cost_paths_heuristic')
P('G07', 'Graph coloring algorithms return proper colorings, exact ones optimal',
  'Every coloring assigns each vertex one color such that adjacent vertices differ, uses exactly the reported number of colors, and does not change the graph. The exact algorithms use the least possible number.',
  'all non-empty graphs and options', 'Quantifies over all graphs; pruning errors need particular structure.', [GA + 'coloring.py'],
  'dsatur; greedy_sequential; branch_and_bound; korman; maxis')
P('G08', 'Clique algorithms return all maximal cliques and largest cliques',
  'Listing yields every maximal clique exactly once. The maximum clique algorithms return a clique of the greatest size, and the weighted one a clique of greatest total weight for any non-negative weights.',
  'all graphs and weights', 'Quantifies over all graphs; bounds prune only on particular structure.', [GA + 'cliques.py'],
  'bron_kerbosch; bron_kerbosch_binary; tomita; pardalos; ostergard; maximum_weight_clique')
P('G09', 'Independent set algorithms return maximal and maximum independent sets',
  'Listing yields every maximal independent set exactly once, exact algorithms return an independent set of greatest size, and heuristics return one that no vertex can be added to. The graph is not changed.',
  'all graphs and random choices', 'Quantifies over all graphs.', [GA + 'independent_sets.py'],
  'branch_and_bound; maximum_independent_set; maximal_independent_sets; greedy; culberson')
P('G10', 'Hamiltonian path listing and counting agree with the definition',
  'Listing yields every ordering of the vertices in which consecutive ones are adjacent exactly once, and every counting method returns their number, whatever order the vertices are processed in. Walk counts inside '
  'a set of vertices are exact.',
  'all graphs', 'Quantifies over all graphs; inclusion-exclusion signs and connectivity pruning err only on some.', [GA + 'hamiltonian_paths.py'],
  'hamiltonian_paths; hamiltonian_paths_con; number_of_hamiltonian_paths_bits; number_of_hamiltonian_paths5; walks')
P('G11', 'Graphic sequence tests are correct',
  'Both tests accept a sequence of integers exactly if it is the degree sequence of a simple graph, in any order of the entries.',
  'all integer sequences', 'A wrong inequality fails only for particular sequences.', [GA + 'degree_sequences.py'], 'is_graphic; is_graphic_erdos_gallai')
P('X01', 'Functions leave their arguments unchanged',
  'Calling any public function leaves the lists, dictionaries, sets, graphs, polynomials and matrices it is given exactly as they were. This holds whatever the values in them are and whether or not the result is consumed.',
  'all argument values', 'Tests compare return values and rarely look at the arguments again.',
  [NT, AL, CO, GR], 'knuth_algorithm_l @ ' + GE + 'permutations.py; Matrix.determinant @ ' + AL + 'matrices/matrices.py; maxis @ ' + GA + 'coloring.py; branch_and_bound @ ' + OP + 'tsp.py; bron_kerbosch @ ' + GA + 'cliques.py')
P('X02', 'Results depend only on the arguments',
  'A deterministic public function returns the same result every time it is called with equal arguments, whatever calls were made in between and whatever the caller has done with earlier results. Memoization never '
  'changes a value. Objects of one class do not share state, overwriting what was read from a graph, polynomial, matrix or heap does not change it, and items an iterator has produced stay as they are while it goes on.',
  'all histories of calls', 'State kept between calls shows only after particular sequences of calls.', [NT, AL, CO, GR, 'rosemary/utilities.py'],
  'cached_function @ rosemary/utilities.py; number_of_hamiltonian_paths_bits @ ' + GA + 'hamiltonian_paths.py; triomino_tilings @ ' + EN + '; legendre @ ' + NT + 'primes/prime_counting.py; primes @ ' + NT + 'primes/sieves.py', over=('inputs', 'histories'))
