"""Public functions that take or return containers, with builders of symbolic arguments."""
import types
from .gr import build, pairs

NT, AL, CO, GA = ('rosemary.number_theory.', 'rosemary.algebra.', 'rosemary.combinatorics.', 'rosemary.graphs.algorithms.')
T = {}


def entry(mod, names, build, **kw):
    for n in names.split():
        T[mod.replace('rosemary.', '').replace('algorithms.', '') + '.' + n] = dict(mod=mod, name=n, build=build, **kw)


def L(k, lo, hi):
    return lambda S, t: ([S.int('%s%d' % (t, i), lo, hi) for i in range(k)],)


def C(k, lo, hi):
    return lambda S, t: ([S.conc(S.int('%s%d' % (t, i), lo, hi)) for i in range(k)],)


def n_of(lo, hi):
    return lambda S, t: (S.conc(S.int(t, lo, hi)),)


def two(f, g):
    return lambda S, t: f(S, t + 'p') + g(S, t + 'q')


entry(NT + 'core', 'gcd_list lcm_list', L(3, -4, 4))
entry(NT + 'core', 'chinese', lambda S, t: ([(S.int(t + 'a', -6, 6), 3), (S.int(t + 'b', -6, 6), 5), (S.int(t + 'c', -6, 6), 2 + 5 * (t == 'B'))],))
entry(NT + 'core', 'crt_preconditioning_data', lambda S, t: ([3, 5, 7] if t == 'A' else [S.choice(t, [2, 4, 8]), 9],))
FACS = [[(2, 1)], [(2, 3), (3, 1)], [(3, 2), (5, 1), (7, 1)], []]


def fac(S, t):
    return [tuple(x) for x in S.choice(t, FACS)]


entry(NT + 'factorization.factorization', 'factor_back', lambda S, t: (fac(S, t),))
for _f in 'divisors divisor_pairs prime_divisors xdivisors unitary_divisors'.split():
    entry(NT + 'factorization.factorization', _f, lambda S, t: (None, fac(S, t)))
entry(NT + 'factorization.factorization', 'factor', n_of(1, 40))
entry(NT + 'factorization.factorization', 'factored_range', n_of(1, 20))
entry(NT + 'arithmetic_functions.functions', 'euler_phi moebius_mu divisor_tau divisor_sigma carmichael_lambda', lambda S, t: (fac(S, t) or [(2, 1)],))
entry(NT + 'factorization.algorithms', 'smooth_factor', lambda S, t: (S.choice(t, [-90, 1, 12, 30, 49, -7]), [-1, 2, 3, 5, 7]))
entry(NT + 'factorization.algorithms', 'trial_division', n_of(2, 40))
entry(NT + 'primes.sieves', 'primes eratosthenes1 eratosthenes2 luo chartres pritchard', n_of(8, 40))
entry(NT + 'primes.sieves', 'primes_first_n', n_of(1, 20))
entry(NT + 'primes.sieves', 'prime_range', two(n_of(0, 10), n_of(20, 30)))
entry(NT + 'primes.prime_counting', 'pi_table', n_of(1, 25))
entry(NT + 'primes.prime_counting', 'legendre meissel lehmer lmo lmo_bit prime_count prime_sum prime_sum2', n_of(30, 60))
entry(NT + 'arithmetic_functions.sums', 'euler_phi_sum euler_phi_weighted_sum moebius_sum sigma_sum', n_of(1, 25))
entry(NT + 'primes.primality', 'is_prime is_probable_prime miller_rabin_deterministic next_prime', n_of(2, 40))
entry(NT + 'misc', 'maximize_divisors', n_of(1, 40))
entry(NT + 'arithmetic_functions.functions', 'factorial primorial', n_of(1, 12))
entry(NT + 'factorization.algorithms', 'fermat lehman', n_of(33, 35))
entry(NT + 'classification', 'is_squarefree is_square is_power', n_of(2, 40))
entry(NT + 'arithmetic_functions.sieves', 'euler_phi_list moebius_list sigma_list tau_list moebius_range', n_of(1, 20))
entry(NT + 'arithmetic_functions.inverse_functions', 'euler_phi_inverse', lambda S, t: (S.choice(t, [1, 2, 4, 8, 12]),))
entry(NT + 'arithmetic_progressions', 'has_three_term_ap longest_ap', lambda S, t: (sorted({S.conc(S.int('%s%d' % (t, i), 3 * i, 3 * i + 2)) for i in range(3)}),))
entry(NT + 'arithmetic_progressions', 'longest_ap', lambda S, t: ([3 * i + S.conc(S.int('%s%d' % (t, i), 0, 2)) for i in range(4)],))
entry(NT + 'misc', 'bernoulli_list', n_of(0, 8))
entry(NT + 'zn_arithmetic', 'sqrts_mod_p', two(n_of(0, 6), lambda S, t: (7,)))
entry(NT + 'zn_arithmetic', 'sqrts_mod_n', two(n_of(0, 11), lambda S, t: (12, [(2, 2), (3, 1)])))
entry(NT + 'zn_arithmetic', 'primitive_root', lambda S, t: ((7, [(7, 1)], 6, [2, 3]) if t == 'A' else (9, [(3, 2)], 6, [2, 3]),))
T['number_theory.zn_arithmetic.primitive_root']['build'] = lambda S, t: (7, [(7, 1)], 6, [2, 3]) if t == 'A' else (9, [(3, 2)], 6, [2, 3])
entry(NT + 'zn_arithmetic', 'is_primitive_root', two(lambda S, t: (S.conc(S.int(t, 1, 6)),), lambda S, t: (7, 6, [2, 3])))
entry(NT + 'zn_arithmetic', 'quadratic_congruence', lambda S, t: ([S.choice(t + 'a', [1, 2]), S.int(t + 'b', 0, 3), S.int(t + 'c', 0, 3)], 9, [(3, 2)]))
entry(NT + 'zn_arithmetic', 'linear_congruence', two(n_of(1, 6), lambda S, t: (S.conc(S.int(t, 0, 3)) * 2, 8)))
entry(NT + 'zn_arithmetic', 'nth_roots_of_unity_mod_p nth_roots_of_minus1_mod_p', lambda S, t: (S.choice(t, [1, 2, 3, 6]), 7))
entry(NT + 'zn_arithmetic', 'fibonacci_primitive_roots', lambda S, t: (S.choice(t, [5, 11, 19]),))
entry(NT + 'diophantine_equations.pell', 'pell_minimal_positive_solutions', lambda S, t: (S.choice(t, [2, 3, 7]), S.choice(t + 'n', [1, 2, 7, -1])))

P2 = lambda k: two(L(k, None, None), L(k, None, None))
entry(AL + 'polynomials.algorithms', 'mul_classical mul_karatsuba list_add list_subtract', P2(3))
entry(AL + 'polynomials.algorithms', 'power_jcp', lambda S, t: ([S.choice(t, [1, 2]), S.int(t + '1', -2, 2), S.int(t + '2', -2, 2)], 3))
entry(AL + 'power_series.power_series', 'ps_mult_classical ps_mult_karatsuba', P2(3))
entry(AL + 'power_series.power_series', 'ps_invert', lambda S, t: ([S.choice(t, [1, -1]), S.int(t + '1', -3, 3), S.int(t + '2', -3, 3)],))
entry(AL + 'power_series.power_series', 'ps_power', lambda S, t: ([S.choice(t, [1, 2]), S.int(t + '1', -2, 2), S.int(t + '2', -2, 2)], 3))
entry(AL + 'power_series.power_series', 'delta_series eta_series', n_of(1, 12))

G_ = CO + 'generation.'
entry(G_ + 'permutations', 'phillips knuth_algorithm_l knuth_algorithm_l_variations', L(3, 0, 3))
entry(G_ + 'permutations', 'knuth_algorithm_l_rvariations', two(L(3, 0, 3), lambda S, t: (2,)))
entry(G_ + 'combinations', 'combinations', lambda S, t: (S.conc(S.int(t, 2, 4)), 2))
entry(G_ + 'partitions', 'integer_partitions', n_of(1, 6))
entry(G_ + 'partitions', 'integer_partitions', lambda S, t: (S.conc(S.int(t, 1, 6)),))
T['combinatorics.generation.partitions.allowed'] = dict(mod=G_ + 'partitions', name='integer_partitions', build=lambda S, t: (S.conc(S.int(t, 3, 6)), dict(parts=[3, 1, 2])), kw=True)
entry(G_ + 'tuples', 'n_tuples', lambda S, t: (2, [S.choice(t, [1, 2]), 2]))
E_ = CO + 'enumeration.enumeration'
entry(E_, 'bell_number partition_number partition_list', n_of(0, 8))
entry(E_, 'multinomial', lambda S, t: (5, [S.choice(t, [1, 2]), 2, 5 - 2 - S.choice(t, [1, 2])]))
entry(E_, 'stirling_number2 binomial bipartitions', two(n_of(0, 4), n_of(0, 4)))
entry(E_, 'rth_power_partition_number', two(n_of(1, 2), n_of(0, 8)))
entry(E_, 'number_of_domino_tilings triomino_tilings', two(n_of(1, 4), n_of(1, 4)))
entry(E_, 'necklaces', lambda S, t: (S.conc(S.int(t, 1, 5)), 2))
O_ = CO + 'optimization.'


def items(S, t):
    return ([(S.int(t + 'v%d' % i, 0, 3), 1 + i) for i in range(3)], S.choice(t + 'c', [2, 4]))


entry(O_ + 'knapsack', 'depth_first dynamic_programming branch_and_bound_depth_first', items)
INF = float('inf')


def mat(S, t):
    d = [[INF, 3, 8, 5], [3, INF, 4, 7], [8, 4, INF, 3], [5, 7, 3, INF]]
    d[0][1] = d[1][0] = S.int(t, 0, 9)
    return ([(0, 0), (1, 2), (3, 1), (2, 5)], d)


entry(O_ + 'tsp', 'depth_first branch_and_bound farthest_insertion steepest_ascent_two_opt two_opt', mat)
entry(O_ + 'tsp', 'euclidean_distance_matrix', lambda S, t: ([(0, 0), (S.conc(S.int(t, 1, 4)), 2)],))
entry(O_ + 'tsp', 'random_two_opt', lambda S, t: ([0, 1, 2, 3, 4 + (t == 'B')],), random=True)
entry(O_ + 'exact_cover', 'algorithmx algorithm_dlx', lambda S, t: ([1, 2, 3], [[1], [2, 3], [1, 2] if S.bool(t) else [2], [3]]))
entry(O_ + 'exact_cover', 'langford_pairings', lambda S, t: (S.choice(t, [3, 4]),))
entry(O_ + 'exact_cover', 'domino_tilings', n_of(2, 2))
entry(O_ + 'exact_cover', 'langford_ints domino_ints latin_square_ints', n_of(2, 4))
entry(CO + 'recreational.alphametics', 'solve', lambda S, t: (['ab', 'b'] if t == 'A' or S.bool(t) else ['aa', 'b'], ['ca']))


def graph(n, w=False, conc=False):
    def f(S, t):
        es = [(0, 1), (1, 2), (2, 3)] + [e for e in ((0, 2), (0, 3)) if S.bool('%s%d%d' % (t, e[0], e[1]))]
        g = S.mod('rosemary.graphs.graphs').Graph()
        g.add_vertices(range(n))
        for e in es:
            x = S.int('%sw%d%d' % (t, e[0], e[1]), 1, 4) if w and e in ((0, 1), (2, 3)) else 2
            g.add_edge(e[0], e[1], S.conc(x) if conc else x)
        return (g,)
    return f


entry(GA + 'cliques', 'bron_kerbosch bron_kerbosch_binary tomita maximal_cliques pardalos pardalos_binary ostergard ostergard_binary maximum_clique maximum_weight_clique', graph(5))
entry(GA + 'independent_sets', 'branch_and_bound culberson maximum_independent_set maximal_independent_sets', graph(5))
entry(GA + 'independent_sets', 'greedy', graph(5), random=True)
entry(GA + 'coloring', 'dsatur greedy_sequential branch_and_bound korman exact_coloring maxis', graph(5))
T['graphs.coloring.greedy_order'] = dict(mod=GA + 'coloring', name='greedy_sequential', build=two(graph(5), lambda S, t: ([4, 0, 3, 1, 2],)))
entry(GA + 'hamiltonian_paths', 'hamiltonian_paths hamiltonian_paths_con number_of_hamiltonian_paths number_of_hamiltonian_paths5 number_of_hamiltonian_paths5_con number_of_hamiltonian_paths_bits number_of_hamiltonian_paths_bits_con', graph(4))
entry(GA + 'hamiltonian_paths', 'walks', lambda S, t: graph(4)(S, t) + (0, 3, {0, 1, 2}))
entry(GA + 'hamiltonian_paths', 'is_connected2', lambda S, t: graph(4)(S, t) + ({0, 1, 3},))
entry(GA + 'connectivity', 'connected_components is_connected', graph(5))
entry(GA + 'connectivity', 'connected_component', two(graph(5), lambda S, t: (0,)))
entry(GA + 'traversal', 'breadth_first_search breadth_first_search_tree depth_first_search depth_first_search_tree', two(graph(5), lambda S, t: (0,)))
entry(GA + 'degree_sequences', 'is_graphic is_graphic_erdos_gallai', L(4, 0, 3))
entry(GA + 'paths', 'dijkstra dijkstra_pairing_heap dijkstra_iterator bellman_ford', two(graph(4, True), lambda S, t: (0,)))
entry(GA + 'paths', 'dijkstra_buckets', two(graph(4, True, True), lambda S, t: (0,)))
entry(GA + 'paths', 'dijkstra_bidirectional', two(graph(4, True), lambda S, t: (0, 3)))
entry(GA + 'paths', 'floyd_warshall', graph(4, True))
entry(GA + 'spanning_trees', 'prim kruskal gabow', graph(4, True))
entry(GA + 'spanning_trees', 'cheriton_tarjan', graph(4, True), random=True)
entry(GA + 'steiner_trees', 'distance_network_heuristic minimum_cost_paths_heuristic', two(graph(4, True), lambda S, t: ([3, 0, 2],)))


def poly(k, cls='PolyZZ', lead=True):
    def f(S, t):
        m = S.mod('rosemary.algebra.polynomials.polynomials')
        cs = [S.int('%s%d' % (t, i), -3, 3) for i in range(k - 1)] + [S.choice(t + 'l', [1, 2])]
        return (getattr(m, cls)(cs),)
    return f


def matrix(n, k, lo=None, hi=None):
    def f(S, t):
        m = S.mod('rosemary.algebra.matrices.matrices')
        return (m.MatrixZZ([[S.int('%s%d%d' % (t, i, j), lo, hi) for j in range(k)] for i in range(n)]),)
    return f


def op(name, fn, build):
    T['algebra.' + name] = dict(fn=fn, build=build, mod=None, name=name)


op('Polynomial.add', lambda p, q: p + q, two(poly(3), poly(3)))
op('Polynomial.sub', lambda p, q: p - q, two(poly(3), poly(2)))
op('Polynomial.mul', lambda p, q: p * q, two(poly(3), poly(2)))
op('Polynomial.scale', lambda p: (3 * p, p * 2, p + 1, 1 - p, -p), poly(3))
op('Polynomial.pow', lambda p: (p**2, p**3), poly(3))
op('Polynomial.quo_rem', lambda p, q: p.quo_rem(q), two(poly(3, 'PolyQQ'), lambda S, t: (S.mod('rosemary.algebra.polynomials.polynomials').PolyQQ([1, 1]),)))
op('Polynomial.pseudo_quo_rem', lambda p, q: p.pseudo_quo_rem(q), two(poly(3), poly(2)))
op('Polynomial.call', lambda p: (p(0), p(2), p[0], p.coefficients()), poly(3))
op('Polynomial.primitive_part', lambda p: (p.content(), p.primitive_part()), lambda S, t: (S.mod('rosemary.algebra.polynomials.polynomials').PolyZZ([S.choice(t, [2, 4, 6]), 4]),))
op('Matrix.arithmetic', lambda a, b: (a + b, a - b, a * b, -a, 2 * a, a * 3), two(matrix(2, 2), matrix(2, 2)))
op('Matrix.determinant', lambda a: a.determinant(), matrix(2, 2, -1, 2))


def call(S, e, args, iterate=False):
    if e.get('fn'):
        return e['fn'](*args) if not iterate else ()
    f = getattr(S.mod(e['mod']), e['name'])
    r = f(*args[:-1], **args[-1]) if e.get('kw') else f(*args)
    lazy = isinstance(r, (types.GeneratorType, map, zip))
    if iterate:
        return r if lazy else ()
    return list(r) if lazy else r


def snap(x):
    """A copy of the structure of x down to numbers and strings."""
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(snap(y) for y in x)
    if isinstance(x, dict):
        return ('dict',) + tuple((snap(k), snap(v)) for k, v in sorted(x.items(), key=lambda kv: repr(kv[0])))
    if isinstance(x, (set, frozenset)):
        return ('set',) + tuple(sorted((snap(y) for y in x), key=repr))
    if hasattr(x, 'graph_dict'):
        return ('graph', snap(x.graph_dict))
    if hasattr(x, 'coefficients'):
        return ('poly', snap(x.coefficients()), x.degree)
    if type(x).__name__.startswith('Matrix'):
        return ('matrix',) + tuple(snap(row) for row in rows(x))
    return x


def rows(x):
    i = 0
    while True:
        try:
            r = x[i]
        except IndexError:
            return
        yield r
        i += 1


def same(a, b):
    """Equality of two snapshots as one truth value."""
    from .oracle import band
    if isinstance(a, tuple) != isinstance(b, tuple):
        return False
    if isinstance(a, tuple):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            q = same(x, y)
            if q is False:
                return False
            r = q if r is True else r if q is True else band(r, q)
        return r
    return a == b


def spoil(x):
    """Overwrite every container reachable from a result."""
    if isinstance(x, list):
        for y in x:
            spoil(y)
        x[:] = [None] * (len(x) + 1)
    elif isinstance(x, tuple):
        for y in x:
            spoil(y)
    elif isinstance(x, dict):
        for y in list(x.values()):
            spoil(y)
        x.clear()
    elif isinstance(x, set):
        x.clear()
    elif hasattr(x, '_coefficients'):
        spoil(x._coefficients)
    elif hasattr(x, '_Matrix__entries'):
        spoil(x._Matrix__entries)


class Corner:
    """Builds arguments from the last or first value of every range."""

    def __init__(self, S, last):
        self.S, self.last = S, last

    def int(self, name, lo=None, hi=None):
        return (7 if self.last else -3) if lo is None else hi if self.last else lo

    def bool(self, name):
        return self.last

    def choice(self, name, options):
        return options[-1 if self.last else 0]

    def conc(self, x):
        return x

    def mod(self, name):
        return self.S.mod(name)
