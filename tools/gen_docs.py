"""Writes properties.jsonl and MANIFEST.json from one description (run after editing it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NT = 'rosemary/number_theory/'
GA = 'rosemary/graphs/algorithms/'
CO = 'rosemary/combinatorics/'


def P(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), note=None, na=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mechanism=mechanism, state=state, observe=observe, note=note, na=na)


PROPS = [
    P('C01', 'Factoring is correct and terminates whatever the random draws',
      'For every nonzero integer factored by the default (randomized) method, and every sequence of draws, the factorization '
      'is complete: strictly increasing primes (after the unit -1 for negative numbers) with positive exponents whose '
      'product is the integer, and multiplying it back gives the integer. The randomized splitters only ever return '
      'divisors greater than 1 of their input, and once draws are fair repeated calls split a composite. No sequence of '
      'draws makes factoring raise an error or run for ever.',
      ['schedules', 'fault_sequences', 'inputs', 'histories'],
      'All values the random source may deliver, in any order (including extreme, constant and cyclic prefixes), for '
      'every integer factored and every earlier factoring call of the process.',
      'The tests factor a few dozen fixed integers with whatever the process-wide generator happens to draw; draws that '
      'make a cycle start badly, fail to split, or split off composites are met only by luck.',
      [NT + 'factorization/factorization.py', NT + 'factorization/algorithms.py', NT + 'primes/primality.py'],
      [('retry with fresh draws until a proper divisor is found', NT + 'factorization/factorization.py:factor'),
       ('randomized cycle finding, batched gcds and backtracking', NT + 'factorization/algorithms.py:pollard_rho_brent'),
       ('randomized cycle finding', NT + 'factorization/algorithms.py:pollard_rho'),
       ('prime check of the parts', NT + 'primes/primality.py:is_probable_prime')],
      observe=['return values of factor, pollard_rho, pollard_rho_brent, factor_back']),
    P('C02', 'Arithmetic functions never depend on the draws made while factoring',
      'Every arithmetic function of an integer (divisor counts and sums, totient, Carmichael function, Moebius function, '
      'divisor lists, unitary divisors, divisor pairs, prime divisors, the largest divisor up to a bound, squarefreeness) and every '
      'totient-preimage list equals its mathematical definition, whatever the random draws behind the factoring were and '
      'whatever was asked before. Giving the function a factorization instead of the integer gives the same answer and '
      'leaves the factorization unchanged.',
      ['schedules', 'inputs', 'histories'],
      'All draw sequences behind factoring, all integers (smooth, prime powers, products of large primes), both argument '
      'forms, all preceding calls.',
      'The tests compare a few fixed values per function; the caches and the random factoring underneath see one history '
      'and one draw sequence.',
      [NT + 'arithmetic_functions/functions.py', NT + 'arithmetic_functions/inverse_functions.py',
       NT + 'factorization/factorization.py'],
      [('definition over the factorization', NT + 'arithmetic_functions/functions.py'),
       ('divisor enumeration from the factorization', NT + 'factorization/factorization.py:divisors'),
       ('memoised recursion over the divisors', NT + 'arithmetic_functions/inverse_functions.py:inverse_phi')],
      observe=['return values']),
    P('C03', 'Primality verdicts and prime searches hold for every draw',
      'A randomized primality test never calls a prime composite, and for each composite at most the proven fraction of '
      'its possible draws call it prime (1/4 for the strong test, 1/2 for the Euler test), so repeated fair draws expose '
      'it. Deterministic verdicts are exact in their proven range, the next-prime searches return the least larger prime, '
      'and a random prime request returns a prime of the requested interval, is able to return each of them, and '
      'terminates once draws are fair.',
      ['schedules', 'inputs', 'histories'],
      'Every value of the draw (enumerated for small moduli), adversarial and fair draw sequences, primes, pseudoprimes, '
      'prime powers and Carmichael numbers.',
      'The tests use a handful of numbers with one uncontrolled draw each; error probabilities, liars and unlucky draws '
      'are quantified over all draws.',
      [NT + 'primes/primality.py'],
      [('random base', NT + 'primes/primality.py:miller_rabin'), ('random base', NT + 'primes/primality.py:solovay_strassen'),
       ('fixed bases below proven bounds', NT + 'primes/primality.py:is_probable_prime'),
       ('rejection sampling', NT + 'primes/primality.py:random_prime'), ('wheel search', NT + 'primes/primality.py:next_prime')],
      observe=['return values']),
    P('C04', 'Modular equations and Pell equations: exact solution sets for every draw',
      'The modular solvers (square roots modulo primes and composites, linear and quadratic congruences, roots of 1 and -1, '
      'primitive roots, Fibonacci primitive roots, multiplicative orders, discrete logarithms) return exactly the solutions '
      'in their documented order, or report that there is none, whatever the random draws behind the non-residue search and '
      'the factoring were. The Pell-equation solvers return exactly the solutions asked for: every one satisfies the '
      'equation and none within the bound is missing. No draw sequence makes them fail or run for ever.',
      ['schedules', 'inputs', 'histories'],
      'All draw sequences, all moduli with known factorization (including 2-powers and non-squarefree ones), all residues.',
      'Fixed examples with uncontrolled draws; rare branches of the square-root and lifting recursions depend on the draw '
      'and on the 2-adic shape of the modulus.',
      [NT + 'zn_arithmetic.py', NT + 'diophantine_equations/pell.py'],
      [('random quadratic non-residue, Tonelli-Shanks', NT + 'zn_arithmetic.py:sqrts_mod_p'),
       ('lifting and Chinese remaindering', NT + 'zn_arithmetic.py:sqrts_mod_n'),
       ('class representatives and recurrences', NT + 'diophantine_equations/pell.py')],
      observe=['return values']),
    P('C05', 'Spanning and Steiner trees are right whatever the draws, orders and ties',
      'On every connected weighted graph, each minimum-spanning-tree routine returns a spanning tree whose reported weight '
      'is the sum of its edges and is minimum, whichever start vertex is drawn and however vertices are stored, hashed, '
      'ordered or tied; on a disconnected graph Kruskal and Cheriton-Tarjan return a minimum spanning forest and Prim the '
      'tree of the component of its root. Ranking spanning trees lists distinct spanning trees in non-decreasing weight and misses none, up to '
      'the requested number. Each Steiner heuristic returns a tree containing all terminals, with its true weight, at most '
      '2(1-1/t) times the optimum for t terminals.',
      ['schedules', 'inputs', 'configurations'],
      'All draws of the start vertex, all insertion orders, edge orientations, vertex types, hash values, comparison orders '
      'and weight ties.',
      'The tests use two or three fixed graphs with integer vertices and mostly distinct weights, in one hash order.',
      [GA + 'spanning_trees.py', GA + 'steiner_trees.py', 'rosemary/data_structures/heaps.py',
       'rosemary/data_structures/unionfind.py'],
      [('random root', GA + 'spanning_trees.py:prim'), ('leftist heaps with lazy deletion', GA + 'spanning_trees.py:cheriton_tarjan'),
       ('edge exchanges with a heap of candidates', GA + 'spanning_trees.py:gabow'),
       ('random first terminal', GA + 'steiner_trees.py:minimum_cost_paths_heuristic')],
      observe=['return values']),
    P('C06', 'Optimisation routines: feasible, truthful, bounded, under every draw',
      'Every tour routine returns a permutation of all the points with the true cost of that tour, never below the optimum; '
      'local searches return tours no single exchange of two edges improves, exact searches return the optimum, and a random '
      'tour change reverses exactly one segment. Every knapsack routine returns items that fit with their true value, never '
      'above the optimum, and the exact ones reach it. The genetic search returns the best tour it met, '
      'with its true cost; '
      'no sequence of draws makes any of them fail or run for ever.',
      ['schedules', 'inputs', 'fault_sequences'],
      'All draw sequences (including 0 and the largest value of each range), all point sets, distance matrices and item lists.',
      'The tests check one instance per routine with uncontrolled draws, mostly only that the result is close to a constant.',
      [CO + 'optimization/tsp.py', CO + 'optimization/genetic_tsp.py', CO + 'optimization/knapsack.py'],
      [('acceptance test on a random draw', CO + 'optimization/tsp.py:simulated_annealing_two_opt'),
       ('random restarts, first/steepest improvement', CO + 'optimization/tsp.py'),
       ('selection, crossover, mutation, elitism', CO + 'optimization/genetic_tsp.py'),
       ('random flips with acceptance test', CO + 'optimization/knapsack.py:simulated_annealing')],
      observe=['return values']),
    P('C07', 'Cliques, independent sets and colorings under every order and draw',
      'Enumerating maximal cliques (by any of the offered algorithms) or maximal independent sets yields each exactly once '
      'and nothing else; maximum-clique, maximum-weight-clique and exact independent-set searches return a true optimum; '
      'heuristic ones return valid maximal sets. Every coloring routine returns a proper coloring of all vertices with a '
      'truthful color count, the exact ones with the chromatic number. This holds however vertices are stored, hashed, '
      'ordered or tied and whatever is drawn at random.',
      ['schedules', 'inputs', 'configurations'],
      'All insertion orders, vertex types, hash values, comparison orders, ties and draws, all simple non-empty graphs.',
      'Fixed graphs with integer vertices in one hash order; pivot and bound choices of the recursions depend on set order.',
      [GA + 'cliques.py', GA + 'independent_sets.py', GA + 'coloring.py'],
      [('pivot choice over sets', GA + 'cliques.py:bron_kerbosch'), ('coloring bounds', GA + 'cliques.py'),
       ('random vertex order', GA + 'coloring.py:greedy_sequential'), ('implicit enumeration', GA + 'coloring.py:korman'),
       ('bounds over vertex sets', GA + 'independent_sets.py')],
      observe=['return values']),
    P('C08', 'Shortest paths, traversals and components do not depend on the order',
      'Every shortest-path routine returns the true distances (and nothing for unreachable vertices), with predecessor links or '
      'paths that really have that length; lazily produced paths come in order of distance, and Bellman-Ford and '
      'Floyd-Warshall refuse (ValueError) exactly when they meet a negative cycle. Breadth- and depth-first '
      'traversals visit each reachable vertex exactly once in a valid order of their kind, their trees are valid search '
      'trees, and components partition the vertices into exactly the connected classes. This holds however vertices and '
      'edges are stored, oriented, hashed, ordered or tied.',
      ['schedules', 'inputs', 'configurations'],
      'All insertion orders, edge orientations, vertex types, hash values, comparison orders, ties and end points.',
      'One or two fixed graphs per routine, in one hash order, with integer vertices.',
      [GA + 'paths.py', GA + 'traversal.py', GA + 'connectivity.py', 'rosemary/data_structures/heaps.py'],
      [('heap with decrease-key', GA + 'paths.py:dijkstra_pairing_heap'), ('two frontiers and a meeting rule', GA + 'paths.py:dijkstra_bidirectional'),
       ('bucket queue', GA + 'paths.py:dijkstra_buckets'), ('explicit stack/queue', GA + 'traversal.py')],
      observe=['return values']),
    P('C09', 'Lazy sequences deliver the same items under every consumption schedule',
      'The items a lazily produced sequence delivers depend only on the arguments it was created from: not on how far other '
      'sequences over the same arguments were consumed in between, on sequences abandoned, closed or thrown into half-way, on '
      'other calls made in between, nor on what the consumer does to items it was already given; each item arrives in finite '
      'time. An item, once delivered, is '
      'never changed by later production, and the arguments are unchanged throughout and afterwards.',
      ['schedules', 'histories', 'fault_sequences'],
      'All interleavings of next/close/throw/drop over any number of open sequences and other calls, and all modifications of '
      'delivered items.',
      'The tests exhaust one sequence at a time into a list and compare it at the end.',
      [CO + 'generation/permutations.py', CO + 'generation/partitions.py', CO + 'generation/combinations.py',
       CO + 'generation/tuples.py', CO + 'optimization/exact_cover.py', GA + 'cliques.py', GA + 'hamiltonian_paths.py',
       GA + 'paths.py', GA + 'spanning_trees.py', NT + 'factorization/factorization.py', 'rosemary/graphs/graphs.py'],
      [('items are copied out of the working state', CO + 'generation/permutations.py:knuth_algorithm_l'),
       ('per-call working state of the exact-cover search', CO + 'optimization/exact_cover.py:algorithm_dlx'),
       ('copies of candidate sets', GA + 'cliques.py'), ('paths extended into new lists', GA + 'paths.py:dijkstra_iterator')],
      observe=['items at each place of the sequence', 'arguments']),
    P('C10', 'Concurrent callers get the answers they would get alone',
      'When several threads of one process call the library at the same time, on shared or different arguments that nobody '
      'modifies, every call returns exactly what it would return alone, at every interleaving of the threads. No call fails, '
      'blocks for ever or changes its arguments because of another, and calls made afterwards are unaffected.',
      ['schedules', 'histories'],
      'All interleavings of up to four caller threads at the granularity of lines and bytecodes of the library, including the '
      'very first calls of a process, for every public operation.',
      'The tests never start a second thread.',
      [NT + 'prime_list.py', NT + 'primes/primality.py', NT + 'arithmetic_functions/functions.py',
       NT + 'arithmetic_functions/inverse_functions.py', NT + 'factorization/factorization.py', 'rosemary/utilities.py',
       CO + 'enumeration/enumeration.py', CO + 'optimization/exact_cover.py', 'rosemary/graphs/graphs.py'],
      [('memoisation wrapper keyed by the arguments', 'rosemary/utilities.py:cached_function'),
       ('module-level prime list that is only read', NT + 'prime_list.py'),
       ('working state local to each call', CO + 'optimization/exact_cover.py')],
      state=[('memo table', 'argument tuple -> result of a memoised function', 'rosemary/utilities.py'),
             ('_PRIME_LIST', 'the primes below a million, shared by all callers and only read', NT + 'prime_list.py')],
      observe=['return values per thread', 'arguments', 'later calls']),
    P('C11', 'An interrupted call leaves no trace',
      'If a call is cut short at an arbitrary point (keyboard interrupt, alarm, exit request, failed allocation, exhausted '
      'recursion depth, a failing random source, or a vertex whose hash or comparison fails) it either fails or answers '
      'correctly, and its arguments are left as they were. Every later call of the process, including the same one repeated, '
      'answers as if the interrupted call had never been made.',
      ['crash_points', 'fault_sequences', 'histories'],
      'Every line and bytecode of the library at which a call can be cut short, every kind of interruption, every later call, '
      'for every public operation.',
      'The tests never interrupt a call.',
      [NT + 'arithmetic_functions/inverse_functions.py', NT + 'factorization/factorization.py', 'rosemary/utilities.py',
       'rosemary/graphs/graphs.py', GA + 'coloring.py', GA + 'independent_sets.py', GA + 'spanning_trees.py',
       CO + 'optimization/exact_cover.py', CO + 'optimization/genetic_tsp.py', 'rosemary/algebra/matrices/matrices.py'],
      [('results enter memo tables only when complete', 'rosemary/utilities.py:cached_function'),
       ('algorithms work on copies of the graph', GA + 'independent_sets.py'),
       ('working tables local to each call', NT + 'arithmetic_functions/inverse_functions.py')],
      state=[('memo table', 'argument tuple -> result of a memoised function', 'rosemary/utilities.py'),
             ('_PRIME_LIST', 'the primes below a million, shared by all callers and only read', NT + 'prime_list.py')],
      observe=['arguments after the failure', 'later answers']),
    P('C12', 'An answer depends only on the arguments, never on earlier calls',
      'The same call with equal arguments gives the same answer at any point of any history of calls in a process as it gives '
      'alone in a fresh process with the same random draws: earlier calls (succeeding or failing), the caller modifying results '
      'it was given, and the caller editing its own arguments between calls do not matter. No query changes its arguments or an '
      'earlier result, and modifying a result never changes an argument.',
      ['histories', 'programs', 'fault_sequences'],
      'All finite histories over all public operations, argument objects and results, including failing calls and caller edits.',
      'Each test function makes a few calls in a fixed order and never modifies what it was given.',
      ['rosemary/utilities.py', NT + 'arithmetic_functions/functions.py', NT + 'arithmetic_functions/inverse_functions.py',
       NT + 'factorization/factorization.py', NT + 'zn_arithmetic.py', CO + 'enumeration/enumeration.py',
       'rosemary/algebra/matrices/matrices.py', 'rosemary/algebra/polynomials/polynomials.py', 'rosemary/graphs/graphs.py',
       GA + 'cliques.py', GA + 'coloring.py'],
      [('memoisation keyed by all arguments', 'rosemary/utilities.py:cached_function'),
       ('inputs copied before they are worked on', 'rosemary/algebra/matrices/matrices.py:Matrix'),
       ('graph copies', 'rosemary/graphs/graphs.py:copy')],
      state=[('memo table', 'argument tuple -> result of a memoised function', 'rosemary/utilities.py'),
             ('_PRIME_LIST', 'the primes below a million, shared by all callers and only read', NT + 'prime_list.py')],
      observe=['every return value', 'every argument and earlier result after every call']),
    P('C13', 'Heaps, union-find structures and bit sieves behave like their simple models',
      'After every history of operations a heap (leftist, pairing) yields its entries in non-decreasing order of their current '
      'keys with none lost, duplicated or invented, including after merges, key decreases and failing operations. Union-find '
      'structures report two elements as together exactly when they were united, with the name last given, and a bit sieve '
      'reports exactly the counts and membership of what has not been removed. A failing operation changes nothing.',
      ['histories', 'fault_sequences', 'inputs'],
      'All finite operation histories (inserts, deletes, merges, decreases, unions, finds, failing operations) over all key types '
      'and tie patterns.',
      'The tests run one short fixed history per structure.',
      ['rosemary/data_structures/heaps.py', 'rosemary/data_structures/unionfind.py', 'rosemary/data_structures/bit_sieve.py'],
      [('rank-based merging', 'rosemary/data_structures/heaps.py:LeftistHeap'), ('two-pass pairing, cut and link', 'rosemary/data_structures/heaps.py:PairingHeap'),
       ('path compression and union by size', 'rosemary/data_structures/unionfind.py'), ('Fenwick-style counts', 'rosemary/data_structures/bit_sieve.py')],
      observe=['every return value after every operation']),
    P('C14', 'A graph always equals the simple graph its history of edits describes',
      'After every history of edits, copies, derived graphs and failing calls, every query of a graph (vertices, edges with '
      'weights, neighbors, degrees, counts, density, matrices, membership) describes exactly the simple weighted graph those edits '
      'produce. Copies and derived graphs (complement, induced subgraph, removals) are what their names say, never share later '
      'edits with the original, and a failing call changes nothing. A random graph has exactly the requested vertices and is simple, for every draw.',
      ['histories', 'fault_sequences', 'schedules'],
      'All finite edit histories on several graphs derived from each other, all vertex types, hash values and orders, all draws of the random graph.',
      'The tests build a few fixed graphs and ask each question once.',
      ['rosemary/graphs/graphs.py'],
      [('symmetric adjacency dictionaries', 'rosemary/graphs/graphs.py:Graph'), ('deep copies', 'rosemary/graphs/graphs.py:Graph.copy')],
      state=[('graph_dict', 'vertex -> neighbor -> weight, kept symmetric', 'rosemary/graphs/graphs.py:Graph.__init__')],
      observe=['every query after every operation']),
    P('C15', 'Loading a graph file gives the whole graph or fails, under every I/O fault',
      'Loading a graph from a file of the supported formats returns exactly the graph the file describes, however the device splits '
      'its reads; if opening or reading fails at any point the failure reaches the caller and no partial graph is returned. The file '
      'is closed in every case, and loads never affect each other: not by having failed, not when one is made while another is reading.',
      ['fault_sequences', 'crash_points', 'histories'],
      'All sequences of loads over files of all shapes, with short reads, read errors and interruptions at every offset, refused opens, rewritten files and loads during loads.',
      'The tests never read a graph from a device that fails or splits reads.',
      ['rosemary/graphs/graphs.py'],
      [('line-wise parsing inside a context manager', 'rosemary/graphs/graphs.py:load_graph'), ('edge lines', 'rosemary/graphs/graphs.py:load_dimacs_graph')],
      observe=['returned graph', 'open and closed handles of the simulated device']),
    P('C16', 'Exhaustive searches deliver every solution exactly once',
      'The exact-cover searches yield every exact cover exactly once and nothing else, the sudoku solver completes the given grid '
      'validly, the puzzle solvers give exactly the assignments that satisfy the puzzle, and the Hamiltonian-path routines list or '
      'count exactly the Hamiltonian paths. This holds for every order of elements and vertices, when several solution sequences over '
      'one problem are consumed in any interleaving, and when some are abandoned half-way.',
      ['schedules', 'inputs', 'configurations'],
      'All element types, hash values and orders, all interleavings and abandonments of solution sequences over shared problem objects.',
      'The tests count the solutions of a few fixed problems, one sequence at a time.',
      [CO + 'optimization/exact_cover.py', CO + 'recreational/alphametics.py', GA + 'hamiltonian_paths.py'],
      [('cover and uncover in exact reverse order', CO + 'optimization/exact_cover.py:algorithm_dlx'),
       ('branching on the rarest element', CO + 'optimization/exact_cover.py:algorithmx'),
       ('inclusion-exclusion over vertex subsets', GA + 'hamiltonian_paths.py')],
      observe=['the sequence of solutions', 'counts']),
    P('C23', 'A call made in the middle of another call gets its own answer',
      'When one thread calls the library while another call of the same thread is still under way (from a signal handler, a '
      'finalizer, or the hash or comparison of a vertex), at whatever point that happens, both calls give the answers they '
      'would give alone, with the same random draws of their own. Neither fails, waits for ever or changes its arguments because '
      'of the other, whether they are calls of the same operation, on equal or shared arguments, or of different operations, '
      'and calls made afterwards are unaffected.',
      ['schedules', 'crash_points', 'histories'],
      'Every line and bytecode of the library at which the inner call can happen, every hash and comparison of a vertex, every pair '
      'of public operations, several inner calls in one call.',
      'The tests never make a call while another is under way.',
      ['rosemary/utilities.py', NT + 'arithmetic_functions/functions.py', NT + 'arithmetic_functions/inverse_functions.py',
       NT + 'factorization/factorization.py', NT + 'factorization/algorithms.py', CO + 'optimization/exact_cover.py',
       CO + 'optimization/tsp.py', CO + 'enumeration/enumeration.py', GA + 'paths.py', GA + 'cliques.py', GA + 'coloring.py',
       GA + 'spanning_trees.py', 'rosemary/graphs/graphs.py', 'rosemary/data_structures/unionfind.py'],
      [('working tables are local to each call', NT + 'arithmetic_functions/inverse_functions.py'),
       ('memo entries are stored only when complete, without a lock', 'rosemary/utilities.py:cached_function'),
       ('working state belongs to the call, not to the module, function or shared argument', CO + 'optimization/exact_cover.py')],
      state=[('memo table', 'argument tuple -> result of a memoised function', 'rosemary/utilities.py'),
             ('_PRIME_LIST', 'the primes below a million, shared by all callers and only read', NT + 'prime_list.py')],
      observe=['return values of inner and outer calls', 'arguments', 'later calls']),
    P('C24', 'A call leaves the process as it found it',
      'Whenever control is with the caller (after a call returned, failed or was cut short at an arbitrary point, between two '
      'items of a lazy sequence and after it is abandoned, after concurrent calls) the ambient state of the process is what '
      'it was before: recursion limit, garbage-collector settings, decimal context, limit of digits in conversions, signal '
      'handlers and masks, working directory, environment, standard streams, hooks, warning filters, locale, open files, threads '
      'and the standard modules. Randomized calls take all randomness by drawing from the process\'s random generator, '
      'and neither reseed it nor set it back. Answers do not depend on any of those settings.',
      ['crash_points', 'schedules', 'histories', 'configurations'],
      'All legal ambient states, all points at which a call can be cut short or a sequence suspended, all histories of calls, for '
      'every public operation.',
      'The tests look at return values only and run in one ambient state.',
      [NT + 'factorization/algorithms.py', NT + 'primes/primality.py', NT + 'zn_arithmetic.py', NT + 'core.py',
       CO + 'optimization/knapsack.py', CO + 'optimization/tsp.py', CO + 'optimization/genetic_tsp.py',
       CO + 'optimization/exact_cover.py', CO + 'recreational/alphametics.py', GA + 'spanning_trees.py', GA + 'independent_sets.py',
       GA + 'hamiltonian_paths.py', GA + 'cliques.py', 'rosemary/graphs/graphs.py', 'rosemary/utilities.py'],
      [('draws from the generator of the random module', NT + 'factorization/algorithms.py'),
       ('no use of settings of the interpreter', 'rosemary/utilities.py'),
       ('files opened in a context manager', 'rosemary/graphs/graphs.py:load_graph')],
      observe=['the readable settings of the interpreter and the place of the random generator after every step', 'return values']),
    # ------------------------------------------------------------ not applicable
    P('C17', 'Integer arithmetic core agrees with its definitions',
      'Greatest common divisors, modular powers and inverses, integer roots and logarithms, valuations, Jacobi symbols, Chinese '
      'remaindering and perfect-power tests equal their mathematical definitions for all integers.',
      ['inputs'], 'All integers.', 'A few fixed values per function.', [NT + 'core.py'], [('iterative algorithms', NT + 'core.py')],
      na='Pure functions of their arguments: no draw, schedule, I/O, order or stored state takes part, so there is nothing for a '
         'simulator to decide (their independence of history, interleaving and interruption is decided under C10-C12).'),
    P('C18', 'Prime tables, prime counts and prime sums are exact',
      'Every sieve lists exactly the primes of its range, every prime-counting algorithm returns the number of primes up to its '
      'argument, and prime sums are exact.',
      ['inputs'], 'All bounds.', 'Fixed bounds.', [NT + 'primes/sieves.py', NT + 'primes/prime_counting.py'],
      [('sieving', NT + 'primes/sieves.py'), ('combinatorial counting', NT + 'primes/prime_counting.py')],
      na='Pure functions of the bound (no draws, schedule, I/O or fault); only their call isolation is decided, under C10-C12.'),
    P('C19', 'Tables, ranges and summatory functions match the pointwise functions',
      'The list, range and summation versions of the totient, divisor and Moebius functions agree with the pointwise functions on '
      'every range.',
      ['inputs'], 'All ranges.', 'Fixed ranges.', [NT + 'arithmetic_functions/sieves.py', NT + 'arithmetic_functions/sums.py'],
      [('sieving', NT + 'arithmetic_functions/sieves.py'), ('hyperbola method', NT + 'arithmetic_functions/sums.py')],
      na='Pure functions of the range (no draws, schedule, I/O or fault); only their call isolation is decided, under C09-C12.'),
    P('C20', 'Polynomial, power-series and matrix algebra is exact',
      'Polynomial, power-series and matrix operations satisfy the ring identities and agree between their alternative algorithms.',
      ['inputs'], 'All operands.', 'Fixed operands.',
      ['rosemary/algebra/polynomials/algorithms.py', 'rosemary/algebra/polynomials/polynomials.py',
       'rosemary/algebra/power_series/power_series.py', 'rosemary/algebra/matrices/matrices.py'],
      [('classical and Karatsuba multiplication', 'rosemary/algebra/polynomials/algorithms.py')],
      na='Pure functions of the operands; no nondeterminism or fault takes part in the value (that operands survive and that results '
         'do not depend on history, interleaving or interruption is decided under C10-C12).'),
    P('C21', 'Combinatorial counts and enumerations are complete',
      'Every counting function equals the number of objects it counts, and every generator of tuples, combinations, permutations and '
      'partitions lists each object exactly once in its documented order.',
      ['inputs'], 'All parameters.', 'Fixed parameters.',
      [CO + 'enumeration/enumeration.py', CO + 'generation/permutations.py', CO + 'generation/partitions.py',
       CO + 'generation/tuples.py', CO + 'generation/combinations.py'],
      [('recurrences', CO + 'enumeration/enumeration.py'), ('successor rules', CO + 'generation/permutations.py')],
      na='Pure functions of the parameters when consumed alone; how the lazy ones behave under consumption schedules is decided under C09, '
         'and isolation of the rest under C10-C12.'),
    P('C22', 'Continued fractions, classifications and deterministic splitters are right',
      'Continued-fraction expansions, classification predicates, arithmetic-progression searches, degree-sequence tests and the '
      'deterministic splitting algorithms return what their documentation says for every argument.',
      ['inputs'], 'All arguments.', 'Fixed values.',
      [NT + 'continued_fractions.py', NT + 'classification.py', NT + 'arithmetic_progressions.py', NT + 'misc.py',
       NT + 'factorization/algorithms.py', GA + 'degree_sequences.py'],
      [('periodic expansions', NT + 'continued_fractions.py'), ('trial division, Fermat, Lehman', NT + 'factorization/algorithms.py')],
      na='Pure functions of their arguments without draws, schedule, I/O or fault; only their call isolation is decided, under C10-C12.'),
]

TECH = {
    'draws': 'deterministic simulation: seeded adversarial random source, histories in fresh processes, exact oracles',
    'order': 'deterministic simulation: simulator-decided draws, hashes, orders and ties, brute-force oracles',
    'lazy': 'deterministic simulation: seeded consumption schedules with close/throw/drop faults, fresh-process reference',
    'threads': 'deterministic simulation: seeded line/bytecode thread scheduler, fresh-process sequential reference',
    'crash': 'deterministic simulation: seeded fault injection at lines, bytecodes, draws and comparisons, fresh-process reference',
    'history': 'deterministic simulation: seeded call histories with failing calls and caller edits, fresh-process reference',
    'reentrant': 'deterministic simulation: seeded inner calls at lines, bytecodes, vertex hashes and comparisons, fresh-process reference',
    'ambient': 'deterministic simulation: seeded ambient states, interruptions, suspensions and thread switches, model of the random generator',
    'model': 'deterministic simulation: seeded operation histories with failing operations against executable models',
    'io': 'deterministic simulation: simulated device with short reads, errors and torn files, executable model',
}
KIND = {'C01': 'draws', 'C02': 'draws', 'C03': 'draws', 'C04': 'draws', 'C05': 'order', 'C06': 'draws', 'C07': 'order',
        'C08': 'order', 'C09': 'lazy', 'C10': 'threads', 'C11': 'crash', 'C12': 'history', 'C13': 'model', 'C14': 'model',
        'C15': 'io', 'C16': 'order', 'C23': 'reentrant', 'C24': 'ambient'}
NOTE = {
    'draws': 'Seeded sampling, not exhaustive: a clean batch is evidence over the runs counted in the evidence file. Every draw of the '
             'real code is delivered by the simulator; expected values come from inputs built with known answers or from brute force.',
    'order': 'Seeded sampling of draws, vertex hashes, comparison orders, insertion orders and ties on small graphs or problems; results '
             'are judged by brute force. Evidence, not proof; sizes are bounded (see DESIGN.md).',
    'lazy': 'Seeded sampling of consumption schedules; the reference is the same code consumed alone in a fresh process, so a wrong but '
            'schedule-independent value is outside this check.',
    'threads': 'Seeded sampling of interleavings at lines and bytecodes of the library (built-ins and the standard library are atomic); the '
               'reference is the same call alone in a fresh process.',
    'crash': 'Seeded sampling of injection points and kinds, one fault per call; the reference is the same call alone in a fresh process.',
    'history': 'Seeded sampling of histories; the reference is the same call alone in a fresh process with the same draws, so a wrong but '
               'history-independent value is outside this check.',
    'reentrant': 'Seeded sampling of the places where inner calls start (up to four per call, not nested further); the reference is the '
                 'same call alone in a fresh process with the same draws.',
    'ambient': 'Seeded sampling of ambient states and of the places where calls are cut short; the settings compared are those listed in '
               'dsim/ambient.py, read between the steps.',
    'model': 'Seeded sampling of histories of up to 80 operations against independent executable models.',
    'io': 'Seeded sampling of device faults under the real Python I/O stack; the device and the open call are simulated.',
}


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            anchors = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]}
            if p['state']:
                anchors['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']]
            if p['observe']:
                anchors['observe_at'] = list(p['observe'])
            anchors['hook_needed'] = None
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': anchors}) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 tools/selftest.py',
           'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
                       'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % p['id'],
                       'technique': TECH[KIND[p['id']]], 'level': 'exploration', 'level_note': NOTE[KIND[p['id']]]}
                      for p in PROPS if not p['na']],
           'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in PROPS if p['na']],
           'notes': 'No hooks in /repo: every seam (random source, hashes and orders of vertices, thread switches, interruptions, open) '
                    'exists already or is the interpreter\'s own. Replay: python3 check.py --replay FILE.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
