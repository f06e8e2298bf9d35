#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program so that long texts stay readable)."""
import json, os
A, G, P, R, F, M = "src/atom.rs", "src/algos.rs", "src/polynomial.rs", "src/rational.rs", "src/sym_fmt.rs", "macros/src/lib.rs"
def prop(id, title, statement, over, text, why, files, mech, obs):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=obs, hook_needed=None))
L = [
prop("C01", "Arithmetic on expressions denotes arithmetic",
 "Adding, subtracting, multiplying, dividing or raising two expressions, in every spelling of the operation (function, operator on values or references, assigning operator, raw constructor, accumulation of operands one by one) and applying a named function, yields an expression with exactly the mathematical value of that operation on the operands wherever both are defined. All spellings of one operation give the same expression. A result is never undefined where the operation on the operands is defined.",
 ["inputs", "histories"], "all pairs of expressions, including results of earlier operations, numbers, undefined and empty or one-element sums and products",
 "The tests compare a few dozen literal results; the automatic simplifications in the constructors depend on the kinds of both operands and on what earlier operations left behind.",
 [A, G], [("smart constructors add/sub/mul/div/pow", A), ("operator impls", A), ("function constructors", A)], ["the returned expression"]),
prop("C02", "Reducing, sorting and flattening keep the value",
 "The reduced form of an expression, the form with sorted operands and the flattened form each have the same mathematical value as the original expression, at every assignment of the variables for which both are defined. Reduction never turns a defined expression into an undefined one.",
 ["inputs"], "all expression trees of any shape, including unsorted, nested, repeated, empty and one-element operand lists, and fractional or symbolic exponents",
 "The reduction merges sorted operand lists pairwise; which rules fire depends on the order and kinds of all operands, and tests cover a handful of trees, compared with hand-written expectations.",
 [G, A, R], [("reduce for sums, products and powers", G), ("sort_args, flatten", G)], ["the returned expression"]),
prop("C03", "Reduction yields one stable normal form",
 "Reducing a reduced expression gives it back unchanged. A reduced expression has no nested, empty or one-element sum or product, no leftover neutral or absorbing operand, at most one number per sum or product, no two like terms in a sum and no two factors with the same base in a product, no sine or cosine of zero or of a negative multiple, and no logarithm of its own base. Combining the same operands in a different order or grouping and reducing gives the same expression.",
 ["inputs"], "all expression trees, and all orders and groupings of the operands of a sum or product",
 "Idempotence, order independence and absence of mergeable operands are relations between runs on arbitrary trees; tests check single outputs.",
 [G, A], [("reduce, merging of operands", G), ("ordering of expressions", A)], ["the reduced expressions of permuted and regrouped operands"]),
prop("C04", "Expansion keeps the value and is complete for polynomials",
 "Expanding an expression, expanding only its outermost operation, and distributing products over sums keep its mathematical value. The expansion of a polynomial in variables, constants and functions contains, also inside of function arguments, no product with a sum as factor and no positive integer power of a sum or product; neither does that of any other reduced expression without powers of products. For a reduced expression, distributing a product over a sum, and expanding the outermost integer power of a sum, leaves a sum. Reducing the expanded difference of two polynomials that are equal as polynomials, such as (a+b)^2 and a^2+2*a*b+b^2 or a product and its expansion, gives zero.",
 ["inputs"], "all expressions, all integer and fractional powers of sums and products, nested to any depth",
 "Tests check a few binomials; the multinomial recursion depends on exponents, numbers of terms and nesting.",
 [G], [("expand, expand_main_op, distribute", G)], ["the returned expression"]),
prop("C05", "Rationalising, factoring and cancelling keep the value",
 "Bringing an expression over a common denominator, factoring out common factors, and cancelling common factors of numerator and denominator keep its mathematical value wherever original and result are both defined. For a reduced expression, the common denominator leaves no sum with an inverse or a fraction among its terms, and factoring out, and cancelling (unless it contains powers of products), leaves no variable, constant or function with a positive power in every term of a sum. For polynomials a, b, c, where b and c have no factor in common or twice, the expanded and reduced numerator of the rationalised difference of equal fractions, as a/b and (a*c)/(b*c), is zero.",
 ["inputs"], "all expressions with sums, products, quotients and powers with integer, fractional and symbolic exponents",
 "Tests use small quotients of monomials with one correct answer each; the transformations recurse through numerators and denominators of arbitrary trees.",
 [G], [("rationalize, factor_out, factorize_common_terms, cancel", G)], ["the returned expression"]),
prop("C06", "Decompositions recombine to the original",
 "Splitting an expression into numerator and denominator, base and exponent, coefficient and remaining term, first operand and rest, factors free of and dependent on a variable, sine/cosine part and rest, or common factor and remainders yields parts that recombine to the value of the original expression. The part announced as free of the variable does not contain it, and no factor of the dependent part is free of it. For reduced expressions, the coefficient takes all numbers and the sine/cosine part all positive integer powers of sines and cosines, the numerator keeps no inverse and no fraction, and the remainders of a common factor share no variable, constant or function with positive powers.",
 ["inputs"], "all expressions, all pairs of expressions and all choices of the separating sub-expression",
 "Tests use two or three shapes per decomposition; each decomposition has cases for every kind of operand and exponent.",
 [A, G], [("numerator/denominator, base/exponent, coefficient/term, binary splits", A), ("separate_factors, separate_sin_cos, common_factors", G)], ["the returned parts"]),
prop("C07", "Trigonometric transformations are identities",
 "Expanding and contracting trigonometric functions, rewriting them in terms of sine and cosine, and simplifying trigonometric expressions keep the mathematical value wherever both are defined. For a reduced expression, expansion leaves no sine or cosine of a sum or of an integer multiple, rewriting leaves no other trigonometric function than sine and cosine (inverse ones aside), and contraction leaves no product of sines or cosines and no power of one (up to the power 100) where the original has only such products and powers of them, not sums of them raised or multiplied. For polynomials a, b in sines and cosines of integer multiples of one variable, simplifying, expanding and reducing the difference of such a polynomial, or a product of two, and its contracted or expanded form gives zero.",
 ["inputs"], "all expressions: sums and integer multiples as angles, products and integer powers of sines and cosines, nested functions, mixed with other operations",
 "The formulas have a case for every power and parity; tests cover a few fixed angles and powers.",
 [G], [("expand_trig, contract_trig, substitute_trig, simplify_trig", G)], ["the returned expression"]),
prop("C08", "Exponential and logarithm expansions are identities",
 "Expanding exponentials of sums and products and logarithms of products, quotients and powers keeps the mathematical value, for positive arguments, wherever both are defined. For a reduced expression, the expansions leave no exponential of a sum or an integer multiple and no natural logarithm of a product or power.",
 ["inputs"], "all expressions, with exponentials and logarithms of sums, products, powers and quotients, nested",
 "Tests cover one or two nestings with fixed coefficients.",
 [G], [("expand_exponential, expand_ln", G)], ["the returned expression"]),
prop("C09", "The derivative is the derivative",
 "The derivative of an expression with respect to a variable, or to the application of a function treated as one variable, has, at every point, the value given by the rules of differentiation applied to the original expression. This holds for every function the library offers, for variable bases and exponents, and for repeated derivatives.",
 ["inputs"], "all expressions, all variables, derivatives of any order",
 "Tests check one literal per function; product, power and chain rule combine, and the results pass through automatic simplification.",
 [A, G], [("derivative", A)], ["the returned expression"]),
prop("C10", "Polynomial views agree with the expression",
 "For an expression and a set of variables (possibly generalised, such as sin(x)), the polynomial and monomial tests say exactly whether it is one. If so the reported coefficients and exponents recombine to the expression, coefficients are free of the variables, every monomial is listed once, and the reported degrees and leading coefficients are those of the listed monomials. Monomials do not depend on the order in which they are put together and are ordered by total degree first; a polynomial put together from coefficients and monomials has the value of their sum.",
 ["inputs"], "all expressions, all non-empty sets of variables and generalised variables, any order of operands",
 "Tests use one- and two-variable polynomials in tidy form; raw, unsorted or non-expanded input and generalised variables combine in ways they do not reach.",
 [P], [("monomial and polynomial views: check, coeffs, degree, leading coefficient, collect_terms", P)], ["returned maps of coefficients and degrees"]),
prop("C11", "Substitution and structural queries agree with the tree",
 "Substituting replaces exactly the maximal sub-expressions equal to the pattern, once, leaving the rest unchanged; sequential substitution equals substituting one pair after another, and concurrent substitution replaces all patterns against the original at once. Queries for freeness, variables, sub-expressions, operands, operand counts, logarithm bases, function names and kinds of expressions answer as the tree says.",
 ["inputs", "histories"], "all expressions, patterns and replacements, including patterns that occur in replacements of other pairs, are nested, or are reordered sums and products",
 "Tests substitute a variable once; overlapping patterns, cyclic replacements and compound patterns are not covered.",
 [A, G], [("substitude, seq_substitude, concurr_substitude", A), ("free_of, variables, iter_compl_sub_exprs, predicates", A)], ["the returned expression or answer"]),
prop("C12", "Equality, order and hash are coherent",
 "Equality of expressions is an equivalence that ignores only the order of operands of sums and products; the order is total, antisymmetric, transitive and equal exactly for equal expressions; rational numbers are ordered by value, and so are real numbers (rationals, e and pi) among themselves. Equal expressions hash equally, comparison operators agree with the order, and sorting operands yields a sorted, equal expression.",
 ["inputs"], "all pairs and triples of expressions, including reordered, nested, repeated and one-element operands and numbers close to each other",
 "Laws over pairs and triples of arbitrary trees; no test states one. Violations surface as lost or duplicated terms in maps and merges far away.",
 [A, R], [("PartialEq, Ord, Hash of expressions", A), ("order of rationals", R)], ["==, cmp, hash, sort"]),
prop("C13", "Undefined operands make the result undefined",
 "An arithmetic operation with an undefined operand, zero to the power of zero or of a negative number, and division by zero yield the undefined expression. Reducing an expression that contains an undefined operand anywhere inside sums, products and powers yields the undefined expression; it is never silently dropped.",
 ["inputs", "histories"], "all expressions containing undefined or reaching 0^0, 0^-n or x/0 after simplification, and all orders of operations",
 "Rules such as 0*x=0, x^0=1 and merging of equal terms compete with propagation depending on order; tests check a few direct cases.",
 [A, G], [("undefined cases of constructors", A), ("undefined cases of reduce", G)], ["the returned expression"]),
prop("C16", "Rational numbers are exact",
 "Sums, differences, products, quotients, inverses, absolute values, integer parts, remainders, integer powers and common divisors of rational numbers are exact, in lowest terms with positive denominator, in every spelling of the operator; order, equality and the tests for sign, parity and integrality agree with the exact values. Raising a number to a rational power computes the whole part of the exponent whenever that power fits, and returns parts that multiply back to the exact power. Binomial coefficients are exact. Floating-point approximations of real numbers are within one part in 10^12 of the number. Results that do not fit the library's 128-bit integers are refused, not wrong, and nothing else is refused.",
 ["inputs"], "all pairs of rational numbers that fit 128-bit integers, and all rational exponents",
 "No test targets the number type; sign and remainder conventions and large operands are not reached.",
 [R], [("Rational arithmetic, pow, div_rem, int_gcd, order", R)], ["returned numbers"]),
prop("C17", "Expressions are values: operands persist, copies and serialisation are faithful",
 "No operation changes any expression it was given: after any sequence of operations every earlier expression is exactly what it was, although results share structure with operands. Writing into a copy (replacing an operand, the whole expression or every sub-expression of a kind) changes the copy in exactly that place and nothing else. A clone and an expression read back from its serialised form are equal to the original in every detail, compare and hash equally, and serialise to the same text.",
 ["histories", "inputs"], "all sequences of operations on shared expressions, and all expressions, including the largest numbers",
 "Sharing bugs show only when an operand is inspected after later operations; no test does that, and no test serialises.",
 [A], [("shared pointers of expressions, clone, serde", A)], ["all registers at the end of a session", "the deserialised expression"]),
prop("C18", "Simplification candidates are equal, distinct and ordered",
 "Every candidate returned by simplification has the same mathematical value as the original expression. Candidates are listed without duplicates in order of increasing size, and there is at least one for every compound expression. The reduced results of expanding, expanding exponentials, logarithms and trigonometric functions, contracting, rationalising, factoring out and cancelling the original are among them.",
 ["inputs"], "all expressions",
 "Simplification combines all other transformations repeatedly; no test covers it.",
 [G, A], [("simplify", A), ("cost and search order", A)], ["the returned list"]),
prop("C14", "The printed form reads back as the same expression",
 "The text an expression is displayed as, read by the usual rules (juxtaposition, multiplication dot and slash from left to right, power before product before sum, sign in front of a product, the power of a function written behind its name, the base of a logarithm written behind its name), denotes the same mathematical value, mentions the same variables and shows an undefined operand exactly when there is one.",
 ["inputs"], "all expressions, including unreduced, nested and one-element operand lists, numbers next to each other, fractions, signs, named constants, powers of functions and logarithms to any base",
 "Whether a text is ambiguous depends on which neighbours meet in a product or power; the tests print 28 expressions.",
 [F, A], [("SymbolicFormatter::prod, pow, frac, sum and precedences", F), ("conversion of expressions into FmtAtom", F), ("Func::name", A)], ["the displayed text"]),
prop("C15", "The expr! macro stands for the calls its source denotes",
 "expr!(source) is exactly the expression obtained by calling the library's constructors in the order the source denotes: powers before products and quotients before sums and differences, each from left to right; a minus sign applies to the operand directly behind it; parentheses group; names are variables except pi and undef; a name with arguments calls the function of that name. Any other source is rejected at compile time.",
 ["inputs"], "all source texts made of numbers, names, operators, signs, parentheses and function calls",
 "Precedence and associativity show only in particular combinations of operators; the tests use few of them.",
 [M], [("precedence climbing parser parse_bin_expr", M), ("code generation gen_expr_stream", M)], ["the expression the macro expands to", "compile errors"]),
prop("C19", "Public operations terminate without panicking",
 "Every public operation on expressions returns for every expression, however odd its shape (empty or one-element sums and products, undefined, nested numbers, results of any earlier operations), without a panic, crash or endless computation. Running out of the documented 128-bit integers is the only exception.",
 ["inputs", "histories"], "all sequences of public operations on all expressions, including literal trees of any shape",
 "Tests use well-formed input only; unreachable! and unwrap sites and mutual recursion between transformations depend on shapes produced by other operations.",
 [A, G, P, F], [("unreachable!/unwrap/assert sites and fixpoint loops", G)], ["the outcome of every call"]),
]
EXTRA = os.path.join(os.path.dirname(__file__), "props_extra.py")
if os.path.exists(EXTRA): exec(open(EXTRA).read())
L.sort(key=lambda p: p["id"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in L: f.write(json.dumps(p, ensure_ascii=False) + "\n")
NOTE = "Bounded: TLC-generated sessions (all small terms of a vocabulary plus seeded random deeper ones) are run on the real library and every recorded call is judged by the TLA+ specification. Trusts TLC, the driver's JSON encoding of public data, and the finite-field interpretation (laws model-checked)."
man = dict(version=1, setup_cmd="bash harness/build.sh", hooks=dict(guard="none", enable="no hooks: the tree of an expression is public", source_commits=[]),
 checks=[dict(property=p["id"], quick_cmd="./check %s" % p["id"], thorough_cmd="VERIF_TIER=thorough ./check %s" % p["id"],
   technique="TLA+ specification (TLC): generated behaviours replayed on the code, recorded traces validated against the specification",
   level="model_checking", level_note=NOTE) for p in L], not_applicable=[], notes="See DESIGN.md.")
json.dump(man, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
