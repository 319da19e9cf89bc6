#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the table below: python3 gen.py"""
import json
import os

ROOT = os.path.dirname(os.path.abspath(__file__))
NT, AL, CO, GR, DS = ('rosemary/number_theory/', 'rosemary/algebra/', 'rosemary/combinatorics/',
                      'rosemary/graphs/', 'rosemary/data_structures/')
ROWS = []


def P(pid, title, statement, quant, why, files, mech, over=('inputs',), na=None, note=None):
    mech = [dict(name=m.split(' @ ')[0], where=m.split(' @ ')[1] if ' @ ' in m else files[0])
            for m in mech.split('; ')]
    ROWS.append((dict(id=pid, title=title, statement=statement,
                      quantifier=dict(over=list(over), text=quant), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=mech, observe_at=['return value of the public functions'],
                                   hook_needed=None)), na, note))


P('N01', 'gcd, extended gcd, lcm and modular inverse meet their definitions',
  'For all integers x, y the gcd is the non-negative greatest common divisor (0 for two zeros), the extended gcd also returns '
  'Bezout coefficients for it, and the lcm is the least common multiple; the list forms agree with folding over any list. '
  'The inverse of a modulo m is the residue in [0, m) with a*x = 1 mod m, and exactly the non-invertible cases raise ValueError.',
  'all integers of either sign, all lists, all moduli',
  'The tests try a few dozen fixed pairs; wrong signs or zero handling at other pairs are not reached.',
  [NT + 'core.py'], 'gcd; ext_gcd; lcm; gcd_list; lcm_list; inverse_mod')
P('N02', 'Modular powers, integer logarithms, integer roots and valuations are exact',
  'power_mod(a, k, m) is a**k mod m; integer_log(b, n) is the largest k with b**k <= n; integer square, cube and n-th roots are the '
  'exact floor of the real root at every size; valuation(p, n) is the exponent of p in n and the bit count is the number of one bits. '
  'Arguments outside the documented domain raise ValueError.',
  'all arguments in the documented domains, including those next to exact powers and beyond 2**52',
  'Rounding of floats or loops off by one show only next to exact powers or above the float precision, which sampled tests miss.',
  [NT + 'core.py'], 'power_mod; integer_log; integer_sqrt; integer_nth_root; valuation; bit_count')
P('N03', 'Chinese remaindering solves every system of congruences',
  'For pairwise coprime moduli and any residues, chinese remaindering and its preconditioned form return the unique solution in [0, product) of the '
  'system. Systems whose moduli are not pairwise coprime, or are not positive, raise ValueError where the documentation says so.',
  'all residues (any integer) and coprime moduli of any number',
  'The tests use a handful of systems.', [NT + 'core.py'], 'chinese; chinese_preconditioned; crt_preconditioning_data')
P('N04', 'Jacobi symbols and modular square roots are correct',
  'The Jacobi symbol of a modulo an odd positive m equals the product of Legendre symbols, for every integer a. Square roots modulo '
  'a prime or a composite (with or without a given factorization) are exactly the residues whose square is a, sorted and distinct.',
  'all integers a and all moduli; all outcomes of the random non-residue search',
  'The solution sets depend on the factorization pattern of the modulus and common factors with a, which a few samples do not cover.',
  [NT + 'core.py', NT + 'zn_arithmetic.py'],
  'jacobi_symbol; sqrts_mod_p @ zn_arithmetic.py; sqrts_mod_n @ zn_arithmetic.py; Hensel lifting in solutions modulo p**k @ zn_arithmetic.py')
P('N05', 'Linear and quadratic congruences return exactly their solution sets',
  'The linear congruence a*x = b mod n and the quadratic congruence return precisely the sorted distinct solutions in [0, n). The '
  'n-th roots of unity and of minus one modulo a prime are likewise complete and sound, and invalid moduli raise ValueError.',
  'all coefficients and all moduli', 'Missing or spurious solutions occur for particular common factors of the coefficients and modulus.',
  [NT + 'zn_arithmetic.py'], 'linear_congruence; quadratic_congruence; nth_roots_of_unity_mod_p; nth_roots_of_minus1_mod_p')
P('N06', 'Discrete logs, orders, primitive roots and Fibonacci residues are correct',
  'A discrete logarithm x satisfies a**x = b mod p and failure is reported exactly when none exists. Multiplicative orders are the least positive '
  'exponents; primitive-root tests agree with the definition and the primitive root returned is the least; the Fibonacci primitive roots of a prime are exactly the primitive roots solving g*g = g + 1.',
  'all bases, targets and moduli', 'The tests use fixed moduli; orders depend on the group structure of each modulus.',
  [NT + 'zn_arithmetic.py'], 'discrete_log; multiplicative_order; is_primitive_root; primitive_root; fibonacci_primitive_roots')
P('N07', 'Every factorization method returns true divisors or the prime factorization',
  'factor(n) is the list of (prime, exponent) pairs in increasing prime order whose product is n, and inverts with factor_back; trial division '
  'agrees. Fermat, Lehman, Pollard p-1, rho and rho-Brent and their relatives return a nontrivial divisor of a composite they claim to split and never call a '
  'composite prime, whatever their random choices.',
  'all n and all outcomes of the random draws', 'Wrong output depends on the size and shape of n and on random draws; tests use a few n.',
  [NT + 'factorization/factorization.py', NT + 'factorization/algorithms.py'],
  'factor; factor_back; trial_division @ algorithms.py; fermat @ algorithms.py; lehman @ algorithms.py; pollard_rho @ algorithms.py; pollard_rho_brent @ algorithms.py; pollard_p_minus_1 @ algorithms.py; cfrac @ algorithms.py; factored_range')
P('N08', 'Divisor listings are complete, sorted and duplicate free',
  'divisors, prime divisors, unitary divisors and divisor pairs of n list exactly the integers the definition admits, sorted where promised and without repetition, '
  'from n or from its factorization. Invalid arguments raise ValueError.',
  'all positive n and factorizations', 'The tests use a few n.', [NT + 'factorization/factorization.py'],
  'divisors; xdivisors; prime_divisors; unitary_divisors; divisor_pairs')
P('N09', 'Primality tests and next primes are correct',
  'is_prime(n) holds exactly for the primes (also above the built-in table) and the probable-prime tests never reject a prime, nor accept a composite in the range '
  'where their bases are known to suffice. The next prime is the least prime above n, random primes lie in the requested range, and the Lucas-Lehmer '
  'test accepts exactly the Mersenne primes.',
  'all n, all witness bases, all random draws', 'Tests sample n; the table boundary and pseudoprimes are rare inputs.',
  [NT + 'primes/primality.py'], 'is_probable_prime; solovay_strassen; miller_rabin; miller_rabin_deterministic; next_prime; next_probable_prime; random_prime; lucas_lehmer; is_prime')
P('N10', 'Every sieve returns exactly the primes asked for',
  'primes(n) and each alternative sieve return the sorted list of all primes up to n, the first-n form returns the first n primes, and the range and segmented forms '
  'return the primes of the half-open interval, for every limit including squares of primes and limits past the built-in table.',
  'all limits and intervals', 'Off-by-one errors show at limits next to prime squares, wheel and block boundaries; tests use few limits.',
  [NT + 'primes/sieves.py'], 'primes; primes_first_n; prime_range; eratosthenes1; eratosthenes2; luo; chartres; pritchard')
P('N11', 'Prime counting functions agree with counting',
  'Legendre, Meissel, Lehmer, Lagarias-Miller-Odlyzko and the other counters, the count and sum tables and the sums of primes all equal the value '
  'obtained from the list of primes up to n.',
  'all n', 'Each formula has boundary cases at squares, cubes and fourth powers of primes beyond the tested values.',
  [NT + 'primes/prime_counting.py'], 'prime_count; legendre; meissel; lehmer; lmo; lmo_bit; prime_sum; pi_table')
P('N12', 'Arithmetic functions equal their definitions',
  'Totient, Moebius, divisor count and power sums, Carmichael lambda, factorial and primorial equal their definitions, and give '
  'the same answer for an integer and for its factorization. Non-positive arguments raise ValueError.',
  'all n and factorizations, all exponents k', 'Tests sample n.', [NT + 'arithmetic_functions/functions.py'],
  'euler_phi; moebius_mu; divisor_sigma; divisor_tau; carmichael_lambda; primorial; factorial')
P('N13', 'Tables, partial sums and preimages of arithmetic functions are exact',
  'Each table over 1..n (or a range) of totients, Moebius values, divisor sums and counts lists the function value at every index, and the summatory functions equal the plain sum. '
  'The preimages under the totient are exactly the sorted integers with that totient.',
  'all limits and ranges', 'Errors at block and square-root boundaries escape fixed limits.',
  [NT + 'arithmetic_functions/sieves.py', NT + 'arithmetic_functions/sums.py', NT + 'arithmetic_functions/inverse_functions.py'],
  'euler_phi_list; moebius_list; moebius_range; sigma_list; tau_list; euler_phi_sum @ sums.py; moebius_sum @ sums.py; sigma_sum @ sums.py; inverse_phi @ inverse_functions.py')
P('N14', 'Square, power, squarefree and factorial tests are exact',
  'is_square, is_power, is_squarefree and is_factorial decide their definition for every integer or factorization, and when they return roots, bases or exponents these are the right ones.',
  'all n, all exponents', 'False answers occur only at rare n (large powers and their neighbours).',
  [NT + 'classification.py'], 'is_square; is_power; is_squarefree; is_factorial')
P('N15', 'Continued fractions and Pell equations are solved exactly',
  'Partial quotients, periods and convergents of quadratic irrationals equal those of the true expansion. The fundamental solution of the Pell equation is the least one; generalised '
  'Pell solvers return only solutions, and every positive solution in order.',
  'all non-square d, all starting values p, q, all N', 'Tests use few d; wrong periods depend on reduction details.',
  [NT + 'continued_fractions.py', NT + 'diophantine_equations/pell.py'],
  'QuadraticIrrational; pell_fundamental_solution @ pell.py; pell_minimal_positive_solutions @ pell.py; pell_solution_generator @ pell.py; PellEquation @ pell.py')
P('N16', 'Progression search, divisor optimisation and Bernoulli numbers are correct',
  'The longest arithmetic progression in a sorted list has the true maximal length, and three-term progressions are found exactly. The largest divisor of n below a bound, the integers maximising the divisor count up to a bound and the '
  'Bernoulli numbers equal their definitions.',
  'all sorted integer lists; all n and bounds', 'The search walks index pairs; missed pairs are input specific.',
  [NT + 'arithmetic_progressions.py', NT + 'misc.py'], 'longest_ap; has_three_term_ap; largest_divisor @ misc.py; maximize_divisors @ misc.py; bernoulli_list @ misc.py')
P('A01', 'Polynomials form a ring and evaluation respects it',
  'Sum, difference, product, powers and scalar operations of integer polynomials have exactly the coefficients the definition gives, at every length including the recursive product; evaluation, '
  'degree and equality agree with the coefficients and results carry no leading zeros.',
  'all coefficient lists', 'Identities must hold for all coefficients; the product switches algorithm with length.',
  [AL + 'polynomials/polynomials.py', AL + 'polynomials/algorithms.py'], 'Polynomial operators; mul_classical @ algorithms.py; mul_karatsuba @ algorithms.py; power_jcp @ algorithms.py')
P('A02', 'Polynomial division and gcd satisfy their defining identities',
  'Division with remainder returns a quotient and remainder of smaller degree that recombine to the dividend (pseudo-division up to the stated power of the leading coefficient), or reports that no integral quotient exists. Content, primitive part '
  'and gcd are the true ones up to sign.',
  'all polynomials', 'Needs identity over all coefficients; special shapes (zero, constants, non-monic) break it.',
  [AL + 'polynomials/polynomials.py'], 'quo_rem; pseudo_quo_rem; content; primitive_part; gcd')
P('A03', 'Power series inverses, powers and products are exact to the given precision',
  'The product of a series and its computed inverse is 1 to the precision, computed powers equal repeated multiplication, the recursive product equals the schoolbook product, '
  'and the eta and delta expansions have the known coefficients.',
  'all coefficient lists and precisions', 'Identities over all coefficients.', [AL + 'power_series/power_series.py'],
  'ps_invert; ps_power; ps_mult_karatsuba; eta_series; delta_series')
P('A04', 'Matrix arithmetic and determinants are correct',
  'Sums, differences, products and scalar multiples of matrices are entrywise the defined ones and incompatible shapes raise; row and column access, assignment and removal do what they say. The '
  'determinant equals the signed sum over permutations and does not change the matrix.',
  'all shapes and entries', 'Identities over all entries; zero pivots are special inputs.', [AL + 'matrices/matrices.py'],
  'Matrix operators; determinant; delete_row; delete_col')

NA = []
exec(open(os.path.join(ROOT, 'meta_more.py')).read()) if os.path.exists(os.path.join(ROOT, 'meta_more.py')) else None

NOTE = ('For every value of the symbolic inputs within the bounds in the evidence file, the solver shows the assertion '
        'cannot fail on any path of the real functions, whose source is loaded from /repo at every run. Trusted: the '
        'encoding of Python integers and built-ins in symx (cross-checked by replaying path models on the plain code) '
        'and z3. Nothing is claimed outside the bounds.')
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for d, na, note in ROWS:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
man = dict(version=1, setup_cmd='python3-vt check.py --selftest', checks=[], not_applicable=[])
for d, na, note in ROWS:
    pid = d['id']
    if na:
        man['not_applicable'].append(dict(property=pid, reason=na))
    elif not os.path.exists(os.path.join(ROOT, 'props', pid + '.py')):
        man['not_applicable'].append(dict(property=pid, reason='check not built yet'))
    else:
        man['checks'].append(dict(
            property=pid, quick_cmd='python3-vt check.py %s --tier quick' % pid,
            thorough_cmd='python3-vt check.py %s --tier thorough' % pid,
            technique='symbolic execution of the real Python functions with z3 (bounded, all paths)',
            level='model_checking', level_note=NOTE + (' ' + note if note else '')))
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(ROWS), 'properties,', len(man['checks']), 'claimed')


def design():
    """DESIGN.md = docs/head.md + one entry per property + docs/tail.md + the planted changes."""
    import re
    import sys
    sys.dont_write_bytecode = True
    ns = {}
    exec(open(os.path.join(ROOT, 'docs', 'how.py')).read(), ns)
    cost = json.load(open(os.path.join(ROOT, 'docs', 'cost.json')))
    out = [open(os.path.join(ROOT, 'docs', 'head.md')).read(), '\n## 3. Property by property\n']
    for d, na, note in ROWS:
        pid = d['id']
        src = open(os.path.join(ROOT, 'props', pid + '.py')).read()
        m = re.search(r"META\['%s'\] = (dict\(.*?\n?\))\n[^ ]" % pid, src, re.S)
        meta = eval(m.group(1))
        out.append('### %s %s\n' % (pid, d['title']))
        out.append('*Code:* ' + ', '.join('`%s`' % f for f in d['anchors']['files']) + '.  ')
        out.append('*Decided by:* %s  ' % ns['HOW'][pid])
        out.append('*Bounds:* %s.  ' % meta['bounds'])
        for a in meta.get('assumptions', ()):
            out.append('*Assumption:* %s.  ' % a)
        c = cost.get(pid)
        if c:
            out.append('*Cost (quick):* %d instances, %d paths, %d assertions, %d queries, %.0f s on 8 cores.  ' % (
                c['instances'], c['paths'], c['assertions'], c['queries'], c['wall']))
        out.append('*Beyond the tests:* %s\n' % d['why_tests_cant'])
    out.append(open(os.path.join(ROOT, 'docs', 'tail.md')).read())
    out.append(open(os.path.join(ROOT, 'docs', 'planted.md')).read())
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))


design()
