#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

RAT, INT, TR = "src/core/num/rat.rs", "src/core/num/int.rs", "src/core/num/traits.rs"
ELT, MD, ORD, COMP, DISP = "src/poly/elts.rs", "src/poly/mdeg.rs", "src/poly/ord.rs", "src/poly/comp.rs", "src/poly/display.rs"
MAT, ALG, UT, CONE = "src/linalg/mat.rs", "src/linalg/algorithm.rs", "src/linalg/util.rs", "src/linalg/cone.rs"

prop("C01", "Rationals are always in lowest terms",
 "Every rational number obtained from valid rationals or integers through the public API (construction, conversion, +, -, *, /, negation, the assignment forms, sums, products, integer powers, reciprocals) has a positive denominator that is coprime to its numerator, zero being 0/1. Hence two rationals denoting the same number compare equal and hash equally however they were computed, and are recognised as zero or one exactly when they are. Holds whenever the cross products of the operands fit in 64 bits.",
 ["inputs", "histories"], "all histories of rational operations whose cross products fit in i64",
 "test_rational checks seven single operations whose results happen to need no reduction; a canonical form must survive any chain of operations on any operands.",
 [RAT, TR], [("gcd reduction and sign normalisation on construction", RAT + ": Rational::new"), ("operator impls", RAT)],
 ["Rational.numer / Rational.denom", "==", "Hash", "is_zero / is_one"])

prop("C02", "Rational arithmetic is exact",
 "Rational +, -, *, /, negation, assignment forms, sums, products, integer powers (also negative exponents and negative bases), reciprocals and sign give exactly the mathematical value, so the field axioms hold with no rounding. Creating a zero denominator, dividing by zero, inverting zero or raising zero to a negative power panics and never yields a value. Holds whenever the cross products of the operands fit in 64 bits.",
 ["inputs"], "all operands and 32-bit exponents whose cross products (powers: results) fit in i64",
 "The unit tests sample 1/2 and 1/3 only; exactness and rejection of division by zero quantify over all operands, signs and exponents.",
 [RAT, INT], [("operator impls", RAT), ("zero-denominator panic", RAT + ": Rational::new")],
 ["operators of Rational", "pow, powi, recip, inv, sgn, Sum, Product"])

prop("C03", "Rationals are totally ordered as numbers",
 "Comparing two rationals always gives the order of the numbers they denote: it is total, antisymmetric, transitive and consistent with equality, and adding the same number to both sides or multiplying both by the same positive number does not change it (multiplying by a negative one reverses it). Holds whenever the cross products fit in 64 bits.",
 ["inputs"], "all pairs and triples of rationals whose cross products fit in i64",
 "No test compares rationals at all.",
 [TR], [("cross-multiplication comparison", TR + ": impl Ord for Rational")], ["cmp, partial_cmp, <, >, max, min, sort on Rational"])

prop("C04", "Integer gcd, lcm, power, abs and sign are the mathematical ones",
 "For all integers whose absolute value and exact result fit in 64 bits: the gcd is the largest nonnegative integer dividing both (gcd(0,0)=0), the lcm is the smallest nonnegative common multiple (0 if either is 0), and power, absolute value, sign, the sign predicates, ordering and +, -, *, /, % (both truncating toward zero) are exact. gcd and lcm do not depend on argument order or signs.",
 ["inputs"], "all pairs of i64 values except i64::MIN, exponents from 0 to 2^32-1, exact result representable",
 "test_gcd samples five pairs; lcm, power, sign and the operators are never exercised.",
 [INT], [("Euclid's algorithm", INT + ": Integer::gcd"), ("lcm", INT + ": Integer::lcm"), ("operator macro", INT)], ["Integer::gcd, lcm, pow, abs, sgn, is_pos, is_neg, operators, Display"])

prop("C05", "Pivot selection never picks zero and picks a most stable entry",
 "The stability comparison of f32, f64 and rational values is a consistent preorder with zero equal to itself and strictly below every nonzero value; floats are ranked by magnitude, rationals rank higher when |numerator|+denominator is smaller. Selecting a pivot in a column at or below a row returns the position and value of an entry there that no other entry there outranks, and returns none exactly when all those entries are zero (to within epsilon for floats).",
 ["inputs"], "all finite values; all nonempty matrices, columns and start rows",
 "The LU and echelon tests only see f64 entries 0, 1, 2; the rational ordering is never tested.",
 [TR, ALG, UT], [("StabilityCmp impls", TR), ("pivot search", ALG + ": get_stable_column_index_under_row"), ("get_max_index", UT)], ["stability_cmp", "Mat::get_stable_column_index_under_row", "get_max_index"])

prop("C06", "Polynomial arithmetic is exact ring arithmetic",
 "Over every exact coefficient field, +, -, * and negation of polynomials, terms and scalars in any combination and any ownership form, division of a polynomial by a scalar, and the conversions from scalars and terms, denote exactly the polynomial given by the ring axioms. So any history of operations agrees with the same history computed on plain exponent-to-coefficient maps (exponents up to 255, coefficients in range).",
 ["inputs", "histories"], "all polynomials, terms, scalars and operation sequences over any exact field, any number of variables, exponents at most 255",
 "test_poly and test_term print and assert nothing; the division test samples two variables, coefficients 0..2, degree at most 3 over f64.",
 [ELT, MD], [("operator impls", ELT), ("multidegree addition", MD)], ["operators and From conversions of Polynomial and Term"])

prop("C07", "Polynomials stay free of zero terms and repeated monomials",
 "Every polynomial that arithmetic, conversion, sorting, division, S-polynomials or the Groebner routines produce from clean polynomials is clean: no zero coefficient, no two terms with the same monomial, no multidegree with trailing zero exponents. In particular a polynomial is reported as zero exactly when it denotes the zero polynomial, e.g. after full cancellation.",
 ["inputs", "histories"], "all histories of operations starting from clean polynomials",
 "No test inspects the term list for cleanliness; cancellation depends on the exact combination of operands.",
 [ELT, MD, COMP], [("zero sanitising in + and From", ELT), ("zero_cache trimming in multidegree arithmetic", MD)], ["Polynomial::terms, is_zero, MultiDegree contents"],
 state=[dict(name="terms", meaning="list of nonzero terms with distinct monomials", where=ELT)])

prop("C08", "Evaluation is a ring homomorphism",
 "Evaluating a term or polynomial at a point gives the value of the denoted polynomial function (the zero polynomial gives 0, coordinates beyond the variables used are ignored), so evaluation commutes with +, -, *, negation and scaling. A point with fewer coordinates than the highest variable used is rejected by a panic.",
 ["inputs"], "all polynomials and points over exact fields (values in range)",
 "eval has no test.",
 [ELT, TR], [("term evaluation", ELT + ": Term::eval"), ("sum over terms", ELT + ": Polynomial::eval"), ("powi32", TR)], ["Term::eval, Polynomial::eval"])

prop("C09", "Multidegrees behave as exponent vectors",
 "Multidegree construction from a vector or a variable, addition, checked subtraction, the componentwise <= test, total degree, length and zero test agree with exponent vectors in which missing entries are zero; checked subtraction fails exactly when some entry would become negative. Results never have trailing zero exponents, and trimming always removes all of them, also from an all-zero vector. Holds while entries (for the total degree: the sum) are at most 255.",
 ["inputs", "histories"], "all exponent vectors over any number of variables with representable results",
 "There is no test in mdeg.rs; other tests reach at most three variables and exponents below 10.",
 [MD], [("Add", MD), ("checked_sub", MD), ("is_succ", MD), ("from_vec / trim_zeros", MD)], ["MultiDegree API"])

prop("C10", "The four monomial orders are the monomial orders they are named after",
 "Lexicographic, reverse-index lexicographic, graded lexicographic and graded reverse lexicographic comparison each agree with their mathematical definition on all multidegrees, including total degrees above 255; the graded comparison itself compares total degrees. Each is a total order (equal only for equal multidegrees, antisymmetric, transitive), has the constant monomial as least element and is preserved by multiplying both sides by the same monomial.",
 ["inputs"], "all pairs and triples of clean multidegrees, any number of variables, entries up to 255",
 "The order tests compare a dozen triples of small exponents in exactly three variables; being a monomial order quantifies over all triples.",
 [ORD, MD], [("Lex / RevLex / GrLex / GRevLex / grad", ORD)], ["MonomialOrder::cmp, grad"])

prop("C11", "Leading terms and sorting follow the chosen monomial order",
 "For every monomial order, the leading term of a nonzero polynomial is its unique term whose monomial is greatest in that order and the leading coefficient is that term's coefficient; the zero polynomial has neither. Sorting returns the same terms in strictly increasing order and the leading term of a product is the product of the leading terms.",
 ["inputs"], "all clean polynomials and all four orders",
 "Leading terms are only used indirectly, under lex, in the division test.",
 [COMP, ORD], [("leading_term, leading_coef, sort_terms", COMP)], ["Computer::leading_term, leading_coef, sort_terms"])

prop("C12", "Polynomial division gives a correct quotient-remainder decomposition",
 "Dividing f by any list of polynomials terminates and returns one quotient per divisor and a remainder with f equal to the sum of quotient times divisor plus the remainder. No term of the remainder is divisible by the leading term of any nonzero divisor, and neither the remainder nor any quotient-times-divisor product has a leading monomial above that of f. Zero divisors get quotient zero.",
 ["inputs"], "all dividends and divisor lists over exact fields, all four orders, exponents staying at most 255",
 "The division test checks only the sum identity, under lex, over f64 with coefficients 0..2, two variables and two divisors; it never checks the remainder or the degree bound.",
 [COMP, ELT, MD, ORD], [("multivariate division", COMP + ": Computer::divide"), ("term division", ELT + ": Term::try_div")], ["Computer::divide"])

prop("C13", "Monic lcm and S-polynomials are correct",
 "The monic lcm of two nonzero terms is the monic term of the componentwise maximum of the exponents (zero if either term is zero). The S-polynomial of nonzero f and g equals lcm/LT(f)*f - lcm/LT(g)*g, where lcm is that of their leading terms; its monomials are all below the lcm, it vanishes when f is a scalar multiple of g, and swapping f and g negates it; if f or g is zero there is none.",
 ["inputs"], "all term pairs and polynomial pairs over exact fields and all four orders",
 "The reduction test prints one S-polynomial and asserts nothing.",
 [COMP, ELT, MD], [("monic_lcm", COMP), ("try_reduce", COMP)], ["Computer::monic_lcm, try_reduce"])

prop("C14", "Buchberger's algorithm yields a Groebner basis of the same ideal",
 "For every list of nonzero generators over an exact field and each of the four orders, Buchberger's algorithm terminates and leaves a list that generates the same ideal and whose leading terms generate the leading-term ideal.",
 ["inputs"], "all finite lists of nonzero polynomials over exact fields, all four orders, exponents and coefficients staying in range",
 "The buchberger test prints two results and asserts nothing.",
 [COMP], [("completion with S-polynomial remainders", COMP + ": buchberger_extend"), ("minimisation", COMP + ": buchberger_minimize"), ("inter-reduction", COMP + ": buchberger_reduce")], ["Computer::buchberger_algorithm"])

prop("C15", "The computed Groebner basis is the unique reduced one",
 "The list left by Buchberger's algorithm is the reduced Groebner basis: every leading coefficient is 1 and no term of one element is divisible by the leading term of another. Being unique, it is the same set of polynomials for every presentation of the ideal: generators permuted, repeated, scaled by nonzero constants, or replaced by other generators of the same ideal.",
 ["inputs"], "all finite lists of nonzero polynomials and all re-presentations of the same ideal, all four orders",
 "The buchberger test asserts nothing, and uniqueness relates many runs of the algorithm.",
 [COMP], [("buchberger_minimize, buchberger_reduce", COMP)], ["Computer::buchberger_algorithm"])

prop("C16", "Buchberger's criterion decides exactly whether a list is a Groebner basis",
 "For every list of nonzero polynomials and each order, the criterion answers true if and only if the leading terms of the list generate the leading-term ideal of the ideal they generate. The answer does not depend on the order of the list or on nonzero scaling of its elements.",
 ["inputs"], "all lists of nonzero polynomials over exact fields, all four orders",
 "The criterion is never called by a test.",
 [COMP], [("buchberger_criterion", COMP)], ["Computer::buchberger_criterion"])

prop("C17", "Division by a computed Groebner basis decides ideal membership",
 "Dividing f by the basis computed for a set of generators leaves remainder zero if and only if f lies in the ideal. The remainder does not depend on the order in which the basis elements are listed, is the same for polynomials congruent modulo the ideal, and is additive in f.",
 ["inputs", "histories"], "all generator lists and all polynomials inside and outside the ideal, exact fields, all four orders",
 "No test combines a basis with division.",
 [COMP], [("divide", COMP), ("buchberger_algorithm", COMP)], ["Computer::divide on the output of buchberger_algorithm"])

prop("C18", "Matrix arithmetic is exact and rejects mismatched shapes",
 "Over every exact field, matrix sum, product, scalar product (also in place), transpose, dot product and squared Frobenius norm (sum of squared entries) have the shapes and entries of their definitions, for all shapes and ownership forms. Adding matrices of different shape, or multiplying when the inner dimensions differ, panics.",
 ["inputs"], "all matrices with at least one row and column over exact fields (values in range)",
 "The tests multiply four fixed matrices.",
 [MAT], [("Add / Mul / Mul<F> / MulAssign", MAT), ("transpose, dot, frobenius_norm, scale", MAT)], ["operators and methods of Mat"])

prop("C19", "Matrix construction, access and mutation address the right entries",
 "Identity, zero, standard basis vectors, building from row or column vectors, and reading or writing by index, by row or by column (by copy, iterator or mutable iterator), and swapping entries all address exactly the entry at the given row and column in row-major order, for square and rectangular matrices, and leave every other entry and the shape unchanged. Any history of such mutations agrees with a two-dimensional array.",
 ["inputs", "histories"], "all shapes with at least one row and column, all positions, all mutation sequences",
 "The tests construct a few 3x4 and 4x4 matrices; the mutable row and column iterators and vectors are untested.",
 [MAT, UT], [("indexing and iterators", MAT), ("constructors", MAT), ("get_box_iter", UT)], ["Mat constructors, Index/IndexMut, get_row*, get_col*, swap, index_iter"])

prop("C20", "Elementary matrices and in-place row operations agree",
 "Multiplying on the left by the elementary scaling, transposition, row-replacement (source and target distinct) or permutation matrix gives exactly the same result as the corresponding in-place row operation, which changes only the rows it names. A permutation matrix built from a vector moves row p[i] to row i, its transpose undoes it, and it is orthogonal.",
 ["inputs", "histories"], "all shapes, row indices, scalars and permutations over exact fields, and all sequences of row operations",
 "Two fixed 4x4 elementary matrices are compared with literals; the correspondence with the in-place operations is untested.",
 [MAT], [("scale_mat / permutation / permutation_from_vec / replacement", MAT), ("scale_row / permute_rows / replace_row", MAT)], ["those constructors and mutators"])

prop("C21", "LU decomposition reconstructs the matrix with the promised shapes",
 "For every rectangular matrix over an exact field, the LU decomposition returns a permutation matrix P, a square lower triangular invertible L and a row echelon U of the original shape with P*A = L*U. Over floats the same holds exactly when elimination is exact, and in general P is a permutation, L is lower triangular and P*A equals L*U up to rounding.",
 ["inputs"], "all matrices of all shapes (square, wide, tall, rank deficient, zero rows or columns) over exact fields and floats",
 "test_lu enumerates 3x4 f64 matrices with entries 0, 1, 2 only.",
 [ALG, MAT, TR], [("lu", ALG), ("LUDecompositionInternal", ALG)], ["Mat::lu: p, l, u"])

prop("C22", "Row echelon forms are row equivalent to the matrix and have echelon shape",
 "For every matrix A over an exact field, the row echelon computation gives an invertible P and B with P*A = B and B in row echelon form; the reduced form additionally has pivots 1 as the only nonzero entry of their column, i.e. B is the unique reduced row echelon form of A. The original matrix is kept unchanged.",
 ["inputs"], "all matrices of all shapes over exact fields, and over floats where elimination is exact",
 "test_row_echelon and test_rref enumerate 3x4 f64 matrices with entries 0, 1, 2; pivots and invertibility are not checked.",
 [ALG], [("row_echelon", ALG), ("to_rref", ALG)], ["row_echelon(), to_rref()"],
 state=[dict(name="p, b, original", meaning="transform, form and source matrix with p*original=b", where=ALG)],
 hook="cfg(algeo_verif) read accessor for p, b, original of the row-equivalent form (private fields)")

prop("C23", "Rank and nullity are exact and satisfy the rank-nullity theorem",
 "For every matrix over an exact field the computed rank is the true rank, from both the echelon and the reduced form, and nullity is the number of columns minus the rank. Rank is unchanged by transposition, row permutation, nonzero scaling and invertible products, and counting zero rows counts exactly the rows that are all zero.",
 ["inputs"], "all matrices of all shapes over exact fields, and over floats where elimination is exact",
 "Rank is only compared with nullity of the same run, on 3x4 matrices with entries 0, 1, 2.",
 [ALG], [("rank, nullity, zero_rows", ALG)], ["rank(), nullity(), zero_rows()"])

prop("C24", "The computed kernel is a basis of the null space",
 "For every matrix over an exact field the computed kernel vectors are column vectors of length equal to the number of columns, each is mapped to zero, they are linearly independent, and there are exactly (columns - rank) of them.",
 ["inputs"], "all matrices of all shapes over exact fields, and over floats where elimination is exact",
 "test_compute_kernel enumerates 3x4 f64 matrices with entries 0, 1, 2.",
 [ALG], [("compute_kernel", ALG)], ["compute_kernel()"])

prop("C25", "The computed range is a basis of the column space",
 "For every matrix over an exact field the computed range vectors are columns of the original matrix, linearly independent, exactly rank many, and every column of the matrix is a combination of them.",
 ["inputs"], "all matrices of all shapes over exact fields, and over floats where elimination is exact",
 "compute_range is documented as untested.",
 [ALG], [("compute_range", ALG)], ["compute_range()"])

prop("C26", "Rendered numbers, polynomials and matrices read back as what they denote",
 "The text form of an integer, rational, multidegree, term or polynomial (rational or float coefficients) can be read back to exactly the value it was made from, so different values never print alike: terms after the first are joined by plus or minus according to their sign, coefficients other than 1 and -1 are shown, exponents appear as superscripts on x, y, z, u, v for up to five variables and as an exponent list beyond, zero prints as 0. Rationals print in lowest terms, whole ones without a denominator; matrices print their rows in order, one per line.",
 ["inputs"], "all values, any number of variables, exponents up to 255, any signs and coefficients",
 "Display output is printed but never compared, except for one 3x4 f64 matrix.",
 [DISP, RAT, INT, MAT], [("Display impls", DISP), ("superscript", DISP), ("Rational Display", RAT)], ["Display of Integer, Rational, MultiDegree, Term, Polynomial<f64>, Polynomial<Rational>, Mat"])

prop("C27", "Enumeration helpers visit everything exactly once",
 "Enumerating all matrices of a shape over a nonempty list of distinct values yields each such matrix exactly once and nothing else; enumerating a box yields each position once in row-major order; digits of n in a base of at least two are its least-significant-first digits without leading zeros; and the maximum-index search returns the position of an element that no other exceeds.",
 ["inputs"], "all shapes and value lists (up to feasible counts), all n and bases >= 2, all nonempty sequences",
 "The helpers are used by the tests to enumerate, but nothing checks that they enumerate everything.",
 [UT], [("MatIterator, num_to_seq, get_box_iter, get_max_index", UT)], ["mat_iterator, num_to_seq, get_box_iter, get_max_index"])

prop("C28", "Approximate equality and triangularity tests mean what they say",
 "Epsilon equality is reflexive and symmetric; for rationals and rational matrices of equal shape it holds exactly when they are equal, for floats when the difference is below machine epsilon, for float matrices when the sum of squared differences is. A matrix of any shape is reported upper (lower) triangular exactly when all entries below (above) the main diagonal are zero.",
 ["inputs"], "all finite values and all matrices with at least one row and column",
 "These predicates are the oracle of the existing tests and are themselves untested.",
 [TR, MAT], [("EpsilonEquality impls", TR), ("Mat::epsilon_equals, is_upper_triangular, is_lower_triangular", MAT)], ["epsilon_equals, is_upper_triangular, is_lower_triangular"])

prop("C29", "Cone facets describe the generated cone",
 "Building a cone from a nonempty list of rational generators of equal length records its dimension, a basis of the orthogonal complement of its span, and facets. Each facet's normal lies in the span, is nonnegative on all generators and zero on dimension-1 independent generators listed with it, and every facet of the cone occurs; so a vector lies in the cone if and only if it is orthogonal to the complement basis and has nonnegative product with every facet normal.",
 ["inputs"], "all nonempty lists of rational generator vectors of equal positive length, pointed or not, full-dimensional or not",
 "cone.rs has no tests and says it very likely does not work.",
 [CONE, ALG], [("Cone::new facet enumeration", CONE)], ["Cone::new (private fields)"],
 state=[dict(name="facets, orth_comp_basis, dim", meaning="dual description of the cone", where=CONE)],
 hook="cfg(algeo_verif) read accessor for the private fields of Cone and Face")

prop("C30", "Division of float polynomials terminates and is accurate to rounding",
 "Dividing a float polynomial by float polynomials always terminates, also when leading coefficients do not divide exactly in floating point. The sum of quotient times divisor plus remainder equals the dividend up to rounding, and no remainder term is divisible by a divisor's leading term.",
 ["inputs"], "all finite moderate-size float polynomials and divisor lists, all four orders",
 "The division test uses coefficients 0, 1, 2, for which floating-point division is exact.",
 [COMP, ELT], [("elimination of the leading term", COMP + ": Computer::divide")], ["Computer<f64, _>::divide"])

prop("C31", "Term multiplication, divisibility and exact division are consistent",
 "Multiplying terms multiplies coefficients and adds exponents, giving the zero term if either is zero. For nonzero terms, s divides t exactly when every exponent of s is at most that of t, and then (and only then) dividing t by s succeeds, with quotient q such that q*s = t; dividing zero gives zero and dividing a nonzero term by zero gives nothing. Creating a term with coefficient zero gives the zero term, and creating a polynomial from a list drops exactly the zero terms.",
 ["inputs"], "all pairs of terms over exact fields, any variables, exponents at most 255",
 "test_term multiplies three variables and asserts nothing; divides and try_div are untested.",
 [ELT, MD], [("Mul, divides, try_div, Term::new, Polynomial::new", ELT)], ["Term API"])

prop("C32", "The number types satisfy the field interface",
 "For f32, f64 and rationals: zero and one are recognised exactly and are the identities, the inverse of a nonzero x times x is one (for floats up to rounding), and the integer power agrees with repeated multiplication, powers with negative exponent being powers of the inverse and power zero being one. Zero and one of the primitive integer types and of the integer wrapper are 0 and 1 and recognised exactly; division and the default inverse agree with multiplying by the reciprocal.",
 ["inputs"], "all finite values, 32-bit exponents with representable results",
 "No test exercises the field traits directly.",
 [TR, RAT], [("Zero, One, Field impls", TR)], ["Zero, One, Field trait methods"])

prop("C33", "Results depend only on the arguments",
 "Every operation gives the same result for the same arguments, whatever ran before it in the process, whether the arguments were just built, copied, or changed into their present value, and whatever other threads compute at the same time on values of their own; and it leaves the arguments it only borrows unchanged.",
 ["inputs", "histories", "schedules"], "all sequences of operations on all values, on one thread or several, in one process or several",
 "Each test runs each operation a few times on fixed values; a result remembered, shared or left over from an earlier call shows only in particular histories and interleavings.",
 [RAT, ELT, ORD, COMP, MAT, ALG, DISP], [("operations keep no state between calls; scratch values are local", "src/core, src/poly, src/linalg")],
 ["results of all public operations, and their borrowed arguments afterwards"])

prop("C34", "Values are compared, copied and changed by content",
 "Two values of a type compare equal exactly when they have the same content (numbers: value; terms and multidegrees: coefficient and exponents of every variable; matrices: shape and entries). A clone, also one written over another value, equals its original and is independent of it: changing either leaves the other as it was. Assigning through an accessor or assigning operator changes exactly what it names, and every accessor, constructor and conversion agrees with the content.",
 ["inputs", "histories"], "all pairs of values and all sequences of copies and in-place changes",
 "Tests compare results with assert_eq, so a too generous equality hides errors instead of showing them; nothing tests inequality or independence of copies.",
 [RAT, INT, ELT, MD, MAT], [("PartialEq, Clone, Index, IndexMut, assigning operators, From", ", ".join([RAT, INT, ELT, MD, MAT]))],
 ["==, !=, clone, clone_from, get/set and index accessors, conversions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
import sys
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, s)
    print("valid", len(P))
except ImportError: print("written", len(P))
