"""Results depend on the arguments alone: not on earlier calls, nor on what the caller did with earlier results."""
from symx.run import harness, META
from symx.calls import T, call, snap, same, spoil, Corner
from symx.gr import build as build_graph

META['X02'] = dict(bounds='the listed public functions; three calls in a row, the first and last with the same symbolic arguments '
                          'within the ranges of symx/calls.py, the second with either extreme of these ranges, results overwritten in between; functions with random choices are left out; graphs edited between two calls; objects whose constructor argument is overwritten afterwards')
NAMES = [f for f in sorted(T) if not T[f].get('random')]


@harness('X02', t=60, const_hash=True, random='seeded', quick=[dict(f=f) for f in NAMES], thorough=[dict(f=f) for f in NAMES])
def repeatable(S, f):
    e = T[f]
    build = e['build']
    r = call(S, e, build(S, 'A'))
    first = snap(r)
    S.observe(first)
    spoil(r)
    spoil(call(S, e, build(Corner(S, S.bool('last')), 'B')))
    again = snap(call(S, e, build(S, 'A')))
    S.check(same(first, again), f + ': a later call with the same arguments gives another result')


WIDE = 'minimum_cost_paths_heuristic distance_network_heuristic is_graphic is_graphic_erdos_gallai branch_and_bound_depth_first prime_range longest_ap gabow kruskal dijkstra_buckets pow'.split()


@harness('X02', t=60, const_hash=True, random='seeded', quick=[dict(f=f) for f in NAMES if f.split('.')[-1] not in WIDE], thorough=[dict(f=f) for f in NAMES if f.split('.')[-1] in WIDE])
def between(S, f):
    """The call in between has arguments of its own."""
    e = T[f]
    build = e['build']
    r = call(S, e, build(S, 'A'))
    first = snap(r)
    second = snap(call(S, e, build(S, 'B')))
    S.check(same(first, snap(call(S, e, build(S, 'A')))), f + ': a later call with the same arguments gives another result')
    S.fresh()
    S.check(same(second, snap(call(S, e, build(S, 'B')))), f + ': an earlier call with other arguments changes the result')


GRAPHS = [f for f in NAMES if 'rosemary.graphs.algorithms' in (T[f]['mod'] or '')]


@harness('X02', t=60, const_hash=True, random='seeded', quick=[dict(f=f) for f in GRAPHS], thorough=[])
def edited(S, f):
    """A graph that was edited after a call is answered for as it is now."""
    e = T[f]
    edits = S.choice('edit', ['add', 'weight'] + ['delete'] * ('steiner' not in f))  # no tree joins unreachable terminals

    def edit(args):
        g = args[0]
        if edits == 'add':
            g.add_edge(1, 4, 2)
        elif edits == 'delete':
            g.delete_edge(*g.edges()[-1]) if g.edges() else g.add_edge(0, 1)
        else:
            for u, v in g.edges()[:1]:
                g.add_edge(u, v, 5)
        return args
    args = e['build'](S, 'A')
    if not hasattr(args[0], 'graph_dict'):
        return S.check(True)
    call(S, e, args)
    now = snap(call(S, e, edit(args)))
    S.fresh()
    S.check(same(now, snap(call(S, e, edit(e['build'](S, 'A'))))), f + ': the answer after an edit of the graph depends on the call before it')


@harness('X02', const_hash=True, quick=[dict(k=2), dict(k=3)], thorough=[dict(k=4)])
def memoised(S, k):
    """The memoization wrapper over any sequence of arguments."""
    calls = []

    def f(x, y):
        calls.append((x, y))
        return 10 * x + y
    g = S.mod('rosemary.utilities').cached_function(f)
    seen = []
    for i in range(k):
        x, y = S.int('x%d' % i, -3, 3), S.int('y%d' % i, -3, 3)
        S.check(g(x, y) == 10 * x + y, 'cached_function: another value')
        if (x, y) not in seen:
            seen.append((x, y))
        S.check(len(calls) == len(seen), 'cached_function: not evaluated once for each argument')
    S.check(g.__name__ == 'f', 'cached_function: name')


D_ = 'rosemary.data_structures.'
KINDS = ['graph', 'unionfind', 'named', 'pairing', 'leftist', 'sieve', 'sieve_array', 'cover']


@harness('X02', t=60, const_hash=True, quick=[dict(kind=k) for k in KINDS], thorough=[])
def two_objects(S, kind):
    """Work on a second object of the same class leaves the first as it is."""
    x, y = S.int('x', 0, 3), S.int('y', 0, 3)

    def step(o, a, b):
        if kind == 'graph':
            o.add_edge(S.conc(a), 4 + S.conc(b))
            return o
        if kind == 'unionfind':
            o.union(S.conc(a), S.conc(b))
        elif kind == 'named':
            a, b = S.conc(a), S.conc(b)
            if a != b and o.find(a) != o.find(b):
                o.union(o.find(a), o.find(b), o.find(a))
        elif kind == 'pairing':
            o.insert(a, len(o.list_elements()))
            o.insert(b, len(o.list_elements()))
        elif kind == 'leftist':
            o.insert(a)
            o.insert(b)
        elif kind.startswith('sieve'):
            o.mark_multiples(S.conc(a) + 2)
            o.mark_multiples(S.conc(b) + 1)
        return o

    def make():
        if kind == 'graph':
            return S.mod('rosemary.graphs.graphs').Graph()
        if kind == 'unionfind':
            return S.mod(D_ + 'unionfind').UnionFind(range(4))
        if kind == 'named':
            return S.mod(D_ + 'unionfind').NamedUnionFind(range(4))
        if kind == 'pairing':
            return S.mod(D_ + 'heaps').PairingHeap()
        if kind == 'leftist':
            return S.mod(D_ + 'heaps').LeftistHeap([2, 1])
        if kind == 'cover':
            return S.mod('rosemary.combinatorics.optimization.exact_cover').ExactCoverBinary([1, 2, 4, 3, 6, S.conc(x) + 4])
        return getattr(S.mod(D_ + 'bit_sieve'), 'BITSieve' if kind == 'sieve' else 'BITSieveArray')(12)

    def look(o):
        if kind == 'graph':
            return snap(o)
        if kind in ('unionfind', 'named'):
            return snap([[o.find(i) == o.find(j) for j in range(4)] for i in range(4)])
        if kind == 'pairing':
            return snap([(q.key, q.value) for q in iter(o.delete_min, None)])
        if kind == 'leftist':
            return snap(list(o))
        if kind == 'cover':
            return snap([o.number_of_solutions(), sorted(map(sorted, o.solutions()))])
        return snap([o.partial_sum(i) for i in range(13)])

    alone = look(step(step(make(), x, y), y, x))
    S.fresh()
    one = step(make(), x, y)
    two = make()
    step(two, y, 3 - x if kind != 'pairing' else x)
    step(one, y, x)
    step(two, x, x)
    S.check(same(look(one), alone), kind + ': another object of the class interferes')


ITERATORS = 'algorithm_dlx algorithmx breadth_first_search bron_kerbosch bron_kerbosch_binary combinations depth_first_search dijkstra_iterator factored_range gabow hamiltonian_paths ' \
            'hamiltonian_paths_con integer_partitions allowed knuth_algorithm_l knuth_algorithm_l_rvariations knuth_algorithm_l_variations moebius_range n_tuples phillips prime_range solve tomita ' \
            'xdivisors maximal_cliques maximal_independent_sets'.split()


@harness('X02', t=60, const_hash=True, random='seeded', quick=[dict(f=f) for f in NAMES if f.split('.')[-1] in ITERATORS], thorough=[])
def items_kept(S, f):
    """Items that an iterator has produced stay as they are while it goes on."""
    e = T[f]
    it = call(S, e, e['build'](S, 'A'), iterate=True)
    kept, seen = [], []
    for x in it:
        kept.append(x)
        seen.append(snap(x))
    S.check(same(tuple(map(snap, kept)), tuple(seen)), f + ': an item changes after it was produced')


def getters(S, kind):
    """Object, what can be read from it, and how."""
    if kind == 'graph':
        es = [(0, 1), (1, 2), (2, 3)] + [e for e in ((0, 2), (0, 3)) if S.bool('e%d%d' % e)]
        o = build_graph(S, 5, es, {e: 2 for e in es})
        return o, lambda: snap(o.graph_dict), {
            'vertices': o.vertices, 'vertex_set': o.vertex_set, 'edges': o.edges, 'edge_set': o.edge_set, 'neighbors': lambda: o.neighbors(1),
            'closed_neighborhood': lambda: o.closed_neighborhood(1), 'leaves': o.leaves, 'copy': lambda: o.copy().graph_dict, 'complement': lambda: o.complement().graph_dict,
            'induced_subgraph': lambda: o.induced_subgraph([0, 1, 2, 3, 4]).graph_dict, 'remove_vertex': lambda: o.remove_vertex(4).graph_dict,
            'remove_vertices': lambda: o.remove_vertices([4]).graph_dict, 'remove_edge': lambda: o.remove_edge(0, 1).graph_dict,
            'remove_neighborhood': lambda: o.remove_neighborhood(4).graph_dict, 'remove_closed_neighborhood': lambda: o.remove_closed_neighborhood(4).graph_dict,
            'adjacency_matrix': o.adjacency_matrix, 'edges(weights)': lambda: o.edges(True), 'vertices(order)': lambda: o.vertices(order='degree')}
    if kind == 'polynomial':
        o = S.mod('rosemary.algebra.polynomials.polynomials').PolyZZ(S.ints('c', 2, -3, 3) + [2])
        return o, lambda: snap([o[0], o[1], o[2], o(2), o.degree]), {'coefficients': o.coefficients, 'neg': lambda: -o, 'times one': lambda: o * 1, 'plus zero': lambda: o + 0, 'pow': lambda: o**1}
    if kind == 'matrix':
        o = S.mod('rosemary.algebra.matrices.matrices').MatrixZZ([S.ints('a', 2, -3, 3), S.ints('b', 2, -3, 3)])
        return o, lambda: snap([o[0, 0], o[0, 1], o[1, 0], o[1, 1]]), {'neg': lambda: -o, 'times one': lambda: 1 * o, 'plus': lambda: o + o, 'times': lambda: o * o,
                                                                                        'delete_row': lambda: o.delete_row(0), 'delete_col': lambda: o.delete_col(1), 'same class': lambda: type(o)([o[0], o[1]])}
    if kind == 'pairing':
        o = S.mod(D_ + 'heaps').PairingHeap()
        for i in range(4):
            o.insert(S.int('k%d' % i, 0, 9), i)
        return o, lambda: snap(sorted([v for _, v in o.list_elements()])), {'list_elements': o.list_elements}
    o = getattr(S.mod(D_ + 'bit_sieve'), kind)(12)
    o.mark_multiples(S.conc(S.int('p', 2, 7)))
    return o, lambda: snap([o.partial_sum(i) for i in range(13)]), {'entries': o.entries}


@harness('X02', t=60, const_hash=True, quick=[dict(kind=k) for k in ('graph', 'polynomial', 'matrix', 'pairing', 'BITSieve')], thorough=[])
def reading(S, kind):
    """Overwriting what was read from an object does not change the object."""
    o, look, reads = getters(S, kind)
    for name, read in sorted(reads.items()):
        before = look()
        spoil(read())
        S.check(same(look(), before), '%s: overwriting the result of %s changes the object' % (kind, name))


def built(S, kind):
    """Argument of a constructor, and what can be seen of the object built from it."""
    a = S.ints('a', 3, -3, 3)
    if kind == 'polynomial':
        arg = a + [2]
        return arg, S.mod('rosemary.algebra.polynomials.polynomials').PolyZZ(arg), lambda o: [o[0], o[1], o[2], o[3], o(2), o.degree]
    if kind == 'matrix':
        arg = [[a[0], a[1]], [a[2], 1]]
        return arg, S.mod('rosemary.algebra.matrices.matrices').MatrixZZ(arg), lambda o: [o[0, 0], o[0, 1], o[1, 0], o[1, 1], o.determinant()]
    if kind == 'leftist':
        arg = list(a)
        return arg, S.mod(D_ + 'heaps').LeftistHeap(arg), lambda o: [len(o), o.find_min()]
    if kind in ('UnionFind', 'NamedUnionFind'):
        arg = [S.conc(a[0]), 5, 6, 7]
        o = getattr(S.mod(D_ + 'unionfind'), kind)(arg)
        xs = list(arg)
        return arg, o, lambda o: [o.find(x) == o.find(y) for x in xs for y in xs]
    m = S.mod('rosemary.combinatorics.optimization.exact_cover')
    arg = [1, 2, 4, 3, 6, S.conc(S.int('x', 1, 7))]
    return arg, m.ExactCoverBinary(arg), lambda o: [o.number_of_solutions(), sorted(map(sorted, o.solutions()))]


@harness('X02', t=60, const_hash=True, quick=[dict(kind=k) for k in ('polynomial', 'matrix', 'leftist', 'UnionFind', 'NamedUnionFind', 'cover')], thorough=[])
def given(S, kind):
    """Overwriting what an object was built from does not change the object."""
    arg, o, look = built(S, kind)
    before = snap(look(o))
    spoil(arg)
    S.check(same(snap(look(o)), before), kind + ': overwriting the argument of the constructor changes the object')
