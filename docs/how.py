HOW = {
'N01': 'gcd, ext_gcd and lcm run on two symbolic integers of either sign; the assertions are the defining ones: the result divides both, and for a symbolic witness d no larger common divisor exists (Bezout identity where available). `one_any` leaves one argument unbounded. List forms are compared with folding. inverse_mod: every residue and modulus, ValueError exactly when not coprime.',
'N02': 'Symbolic bases, exponents (as bit patterns), radicands. Roots and logarithms are checked by their inequalities (r**k <= n < (r+1)**k), not against another implementation; windows sit next to perfect powers up to hundreds of bits, where floats round. Domain errors are separate harnesses.',
'N03': 'Residues are unbounded symbolic integers, moduli tuples come from listed windows (pairwise coprime ones and, in not_coprime, all others). Result must lie in [0, prod) and satisfy every congruence; errors as documented.',
'N04': 'a is any integer, moduli all values in windows. Jacobi: the product of Legendre symbols as a table over residues, decided for symbolic a. Roots: the returned list is compared with the solver-side predicate x*x = a mod n for every x; the random non-residue is a symbolic draw.',
'N05': 'Moduli split, coefficients symbolic or split as the code requires; a returned list must be increasing, lie in [0, n) and a residue belongs to it iff the congruence holds.',
'N06': 'Least exponent / existence by definition over the group; bases any integer, moduli in windows; primitive_root compared with the least generator; discrete_log failure demanded exactly when the target is outside the generated subgroup.',
'N07': 'factor and trial_division on symbolic n in windows (also above 10^6): increasing primes with product n. Splitting methods must return nontrivial divisors and only call primes prime; all random polynomial constants and starting points are symbolic; prime tables are shortened so that wheel and bound logic is reached with small n; factored ranges at every offset.',
'N08': 'The code runs on symbolic n; membership of a symbolic witness divisor d is compared with d | n; order and distinctness by increasing().',
'N09': 'Windows for small n, around the end of the built-in table and far above it; witness tests are compared with the definition for every base; random draws symbolic.',
'N10': 'Every sieve against a trial-division list for every limit in the windows, including both sides of squares of primes, both ends of ranges, ranges above 10^7 and ranges spanning several blocks.',
'N11': 'Counting formulas on symbolic n in windows around squares, cubes and fourth powers of primes above the table; equality with the number of primes from the oracle list; tables indexwise.',
'N12': 'Functions run on symbolic n and on factorizations with symbolic exponents or a symbolic prime, against closed definitions (phi as a count, sigma as a sum over d | n ...). carmichael by its exponent property.',
'N13': 'Tables and ranges at every index; sums on symbolic n; inverse totients against the set of all m with phi(m) = n; domain errors.',
'N14': 'is_square / is_power on symbolic n in windows (small, beyond 2**52 and around powers): returned root must satisfy its equation, and False requires that no root exists (solver witness).',
'N15': 'Partial quotients by exact integer arithmetic, minimal period, convergents (determinant, alternation), Pell solutions: least solution from the theory plus a solver query for a smaller one; generalised Pell compared with all positive solutions up to a bound.',
'N16': 'Symbolic increasing lists (order and gaps decided by the solver); the optimal length by enumeration of index sets; divisors and divisor maxima by definition; Bernoulli numbers by the recurrence.',
'A01': 'Coefficients are unbounded symbolic integers; results are compared coefficient by coefficient with convolution etc.; the recursive product is forced by lengths past its threshold.',
'A02': 'u = q*v + r with deg r < deg v, or proof that no integral quotient exists; pseudo-division up to the power of the leading coefficient; gcd divides both and is divisible by the planted common factor.',
'A03': 'Coefficients symbolic; f * inverse(f) = 1, powers equal repeated convolution, recursive product equals schoolbook; eta and delta against their product definitions.',
'A04': 'Entries symbolic and unbounded for linear operations, products and determinants up to 2x2 (3x3 with one bounded column); 0/1 matrices of larger size for pivoting patterns; Leibniz sum as oracle; shape errors.',
'C01': 'Elements are symbolic integers: every weak ordering (pattern of equal elements) is a branch; the output list must be the increasing enumeration of all distinct arrangements.',
'C02': 'All kinds of partitions for n, number of parts and symbolic allowed parts; compared as sets and by multiplicity with a recursive oracle.',
'C03': 'Counting formulas against counting definitions by dynamic programming over objects; colours of necklaces and upper binomial arguments symbolic; boards counted by transfer; domain errors.',
'C04': 'Values, weights, capacity symbolic; optimum expressed as a maximum over all subsets inside the solver; selection feasible and of the reported value; annealing over arbitrary coins for a few steps.',
'C05': 'Distances symbolic; the length must equal the tour length and be minimal over all tours; local search results admit no improving exchange; genetic operators over all choices of cut points.',
'C06': 'Membership of every element in every set is a solver bool read lazily by the search; every returned selection is an exact cover, none repeated, and a symbolic selection that is an exact cover must be among them. Encodings compared with direct counting of the objects.',
'C07': 'Letter patterns listed up to renaming; the solver holds all digit assignments at once: each returned assignment solves, and no unlisted assignment does.',
'D01': 'Keys are unbounded symbolic integers; operation sequences of every kind; a model multiset checks every find/delete, sizes, and the final iteration.',
'D02': 'Operands of each operation symbolic; representatives compared with the partition generated so far after each step, with and without finds in between; names for the named variant.',
'D03': 'Marked positions symbolic; prefix sums against the count for every prefix; a query with symbolic prefix.',
'G01': 'Every history of edit operations with symbolic operands against a set model; all queries after each step; weights symbolic.',
'G02': 'Complement/matrices over every small graph; families over index windows; random graphs over every outcome; loaders on files with symbolic end points.',
'G03': 'Every graph on the listed number of vertices (edges are solver bools), every start: visited set, order property, parents, components.',
'G04': 'Edge weights symbolic; the oracle is the minimum over all simple paths, as a solver term; predecessors and paths must attain it; order of incremental search.',
'G05': 'Weights symbolic of any sign; the set of all spanning forests is listed and the weight of the result must be <= each of them (one query for all weights); enumeration must be complete and sorted.',
'G06': 'Weights symbolic and positive; result must be a tree with terminal leaves and its weight within the ratio of each tree spanning the terminals.',
'G07': 'Every graph within bounds: proper, count of colors right, optimum = chromatic number by definition, graph unchanged; random choices symbolic.',
'G08': 'Every graph within bounds; maximal cliques by definition; weights symbolic for the weighted search.',
'G09': 'As G08 for independent sets; greedy choices symbolic.',
'G10': 'Every graph within bounds: orderings by definition against listing and all counting methods; shuffles symbolic for small sizes.',
'G11': 'Entries symbolic; accepted iff in the set of degree sequences of all graphs of that size.',
'X01': 'Some 180 public calls (table in symx/calls.py) with symbolic argument values; deep snapshot of arguments before and after, also when the result is consumed partly.',
'X02': 'The same table: call, spoil the returned object, call others, call again with equal arguments: equal results; a second call with independent symbolic arguments equals the same call in a fresh module state (module globals, class attributes, function attributes and caches put back); two objects of each class interleaved; results of getters overwritten; items of iterators compared after the iterator went on; the memoization decorator over every sequence of symbolic arguments.',
}
