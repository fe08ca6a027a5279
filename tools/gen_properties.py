"""Writes properties.jsonl (kept as a script so that wording stays in one readable place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))
X = "src/simpy/expr.py"; T = "src/simpy/transforms.py"; I = "src/simpy/integration.py"; R = "src/simpy/regex.py"; S = "src/simpy/simplify/simplify.py"
prop("C01", "Building sums, differences, products and quotients preserves value",
 "For all expressions a and b, the expressions a+b, a-b, a*b, a/b and -a (however many operands are combined, and whatever automatic flattening, like-term collection, like-base collection and reordering happens on construction) have, at every real point where the operands and the operation are defined, exactly the value of that operation on the operands' values. Numeric coefficients are combined exactly.",
 ["inputs"], "all operand expressions (coefficients and exponents arbitrary rationals) and all real values of the symbols at which both sides are defined",
 "Tests compare a few dozen literal expressions structurally; coefficients that cancel to 0 or 1, exponents that cancel, repeated like terms and negative leading factors are combinations no finite list covers.",
 [X], [("Sum.__new__ / like-term collection", X), ("Prod.__new__ / like-base collection", X), ("Expr operator overloads, Rat fast paths", X)],
 ["a+b", "a-b", "a*b", "a/b", "-a", "Sum([...])", "Prod([...])"])
prop("C02", "Powers and roots preserve value",
 "For every base and exponent, constructing base**exponent (including sqrt, nested powers, powers of products, powers of numbers, e**log(x) forms and negative bases) yields an expression whose value equals base**exponent at every real point where both are defined. A non-integer power is read as defined only for a positive base, except that an odd root of a negative number is the real root.",
 ["inputs"], "all rational bases and exponents within the stated sizes, all symbolic bases, all real values of the symbols",
 "Tests sample about thirty literal powers; sign, parity, perfect-power and denominator combinations (and large numbers, where floats lose precision) are not sampled.",
 [X], [("Power.__new__", X), ("numeric power simplification", X), ("(b^x1)^x2 merging with abs", X)], ["a**b", "sqrt(a)", "Power(a, b)"])
prop("C03", "Rational arithmetic is exact and ordered",
 "For all rational numbers, +, -, *, /, //, %, integer powers, negation, absolute value, reciprocal, numerator/denominator and the comparisons ==, <, <=, >, >= on number expressions give exactly the mathematical result, as an exact rational (never a float). Accumulating several numbers gives their exact sum or product.",
 ["inputs"], "all pairs (and short lists) of rationals",
 "Tests check a handful of literal constants.",
 [X], [("Rat operators", X), ("Num comparisons", X), ("accumulate / Const", X)], ["Rat arithmetic", "Rat comparisons", "accumulate"])
prop("C04", "Result of a sum or product does not depend on order or grouping",
 "Combining the same operands by + (or by *) in any order and any grouping gives equal expressions (==) that print the same; the result is flat, has at most one leading rational coefficient or constant, contains no neutral element and no two like terms (or two factors with the same base), and rebuilding it from its own parts returns an equal expression.",
 ["inputs"], "all operand lists up to the stated size, all permutations and groupings, all rational coefficients",
 "Tests check x*y==y*x and three more literal pairs.",
 [X], [("Associative flattening and sorting", X), ("like-term collection", X)], ["==", "repr", ".terms"])
prop("C05", "Expressions never change after they are created",
 "No operation (arithmetic, expand, simplify, factor, diff, subs, evalf, integrate, printing, pattern matching, numeric comparisons) changes the structure or the printed form of any expression that existed before it, including its operands and shared sub-expressions and the lists passed in by the caller; repeating the operation gives an equal result.",
 ["inputs", "histories"], "all operands of the stated shapes with arbitrary rational coefficients, and sequences of operations on shared sub-expressions",
 "Tests build fresh expressions each time and never re-inspect operands after an operation, so cached or aliased state that is written through is invisible.",
 [X, T, R], [("'Exprs shall NOT be mutated in place' rule", X), ("copy-on-combine of coefficient lists, cached expansions", X)], ["operands' terms/repr before and after"],
 state=[("memo attributes", "cached derived data on expression nodes", X)])
prop("C06", "Expanding preserves value and is complete",
 "expand() of any expandable expression has the same value at every point, with exact multinomial coefficients, and leaves no product of a sum and no positive integer power of a sum in a numerator; expandable() is true exactly when expand() applies.",
 ["inputs"], "sums raised to integer powers and products of sums, with arbitrary rational coefficients, up to the stated number of terms and exponent",
 "Tests expand five literal expressions.",
 [X, "src/simpy/combinatorics.py"], [("Prod._expand, Power._expand, Sum._expand", X), ("generate_permutations, multinomial_coefficient", "src/simpy/combinatorics.py")], ["expand()", "expandable()"])
prop("C07", "Factoring out common factors preserves value",
 "factor() of a sum returns an expression with the same value at every point where the sum is defined; factors and numeric content common to all terms are pulled out with the smallest common exponent and the right sign.",
 ["inputs"], "sums of up to the stated number of terms with arbitrary rational coefficients and exponents",
 "Tests factor three literal sums.", [X], [("Sum.factor", X)], ["Sum.factor()"])
prop("C08", "Simplification preserves value",
 "simplify() (and the trigonometric, Pythagorean, product-to-sum, logarithm and common-denominator rewriting it is made of) returns an expression with the same value as its input at every real point where both are defined.",
 ["inputs"], "trigonometric, logarithmic, rational and polynomial expressions of the stated shapes with arbitrary rational coefficients, angles and exponents",
 "Tests check about twenty literal identities; a rewrite that only matches for particular coefficients, signs or powers is not sampled.",
 ["src/simpy/simplify/simplify.py", "src/simpy/simplify/product_to_sum.py", R], [("simplify, trig_simplify, expand_logs", S), ("product_to_sum", "src/simpy/simplify/product_to_sum.py"), ("kinder_replace", R)], ["simplify()", "expand_logs", "trig_simplify", "product_to_sum_unit"])
prop("C09", "Trig, inverse trig, log and abs constructors preserve value",
 "sin, cos, tan, sec, csc, cot, asin, acos, atan, log and abs applied to any argument build an expression equal in value to that function at every real point where both are defined: exact special values at every rational multiple of pi, parity, periodicity, compositions of trig with inverse trig, log of powers of its base, and dropping of absolute values only where the argument is non-negative.",
 ["inputs"], "every rational multiple of pi, every argument of the stated shapes with arbitrary rational coefficients, all real values of the symbols",
 "Tests check the 16 table entries in [0, 2pi) and a few compositions.",
 [X], [("TrigFunction.__new__ and special value tables", X), ("log.__new__", X), ("Abs.__new__, _is_strictly_positive", X)], ["sin(..)", "cos(..)", "...", "log(..)", "abs(..)"])
prop("C10", "Derivatives are correct",
 "For every expression e and variable v, diff(e, v) equals the mathematical derivative of e with respect to v at every real point where both are defined, treating other symbols as constants (linearity, product, quotient, power, exponential, logarithm of any base, chain rule, trig and inverse trig functions); a case that is not supported raises rather than returning a wrong expression.",
 ["inputs"], "expressions of the stated shapes with arbitrary rational coefficients/exponents and arbitrary inner functions, all real points",
 "Tests differentiate about fifteen literal expressions.",
 [X], [("diff methods of every Expr class", X)], ["diff(e, v)", "e.diff(v)"])
prop("C11", "Substitution means evaluation in the updated environment",
 "e.subs({names: values}) has, at every point, the value e takes when the named symbols have the values of the replacement expressions (simultaneously, untouched symbols unchanged), and the replaced symbols no longer occur unless a replacement contains them; replacing one sub-expression by another (as used for changes of variable) agrees with substituting its value.",
 ["inputs"], "expressions of the stated shapes, arbitrary rational coefficients and replacement expressions",
 "Tests only substitute numbers into six derivatives.",
 [X, R], [("subs methods", X), ("replace, replace_factory, replace_class", R)], ["subs", "regex.replace"])
prop("C12", "An indefinite integral differentiates back to the integrand",
 "Whenever integrate(f, x) returns an expression F (rather than None or an error), the derivative of F with respect to x equals f at every real point where both are defined, for every value of the other symbols and coefficients.",
 ["inputs"], "integrands of the stated families with arbitrary rational coefficients",
 "Tests integrate about sixty literal integrands; special coefficients (zero, equal, opposite or negative ones) select different search branches and formulas.",
 [I, T, "src/simpy/integral_table.py"], [("search over safe transforms and heuristics", I), ("integral table", "src/simpy/integral_table.py")], ["integrate(f, x)"])
prop("C13", "Every integration step maps any sub-solution to a solution",
 "Whenever a rewriting step of the integrator (safe transform or heuristic) applies to an integrand and produces sub-integrals, then for arbitrary antiderivatives of those sub-integrals the solution it assembles going backward is an antiderivative of the original integrand at every real point where both are defined; the same holds for each direct table look-up.",
 ["inputs"], "every transform on integrands of the stated families with arbitrary rational coefficients, and arbitrary (opaque) sub-solutions",
 "Tests exercise three transforms on one or two literals each; end-to-end tests reach a transform only with the literals of the test integrals.",
 [T, "src/simpy/integral_table.py"], [("check/forward/backward of each Transform", T), ("check_integral_table", "src/simpy/integral_table.py")], ["Transform.check/forward/backward", "check_integral_table"])
prop("C14", "Definite integrals obey the fundamental theorem",
 "Whenever integrate(f, (x, a, b)) returns an expression, it equals F(b) - F(a) for an antiderivative F of f (on intervals where f is defined), for all limits including equal, reversed, symbolic and negative ones; in particular swapping the limits negates the result and adjoining intervals add.",
 ["inputs"], "integrands of the stated families with arbitrary rational coefficients and arbitrary limits",
 "Tests evaluate about twenty literal definite integrals.",
 [I], [("integrate argument handling, Integration.integrate_bounds", I)], ["integrate(f, (a, b))", "integrate(f, (x, a, b))"])
prop("C15", "Polynomial and linear-algebra kernels are exact",
 "Converting a polynomial expression to its coefficient list and back preserves its value, a non-polynomial is rejected, trimming keeps exactly the significant coefficients, polynomial division of an integrand gives quotient plus proper remainder with the same value, partial fractions recombine to the original fraction, and inverting a 2x2 matrix gives its inverse or reports it singular.",
 ["inputs"], "polynomials up to the stated degree and matrices with arbitrary rational (and symbolic) entries",
 "Tests convert one literal polynomial, divide two and never test inversion directly.",
 ["src/simpy/polynomial.py", "src/simpy/linalg.py", T], [("to_const_polynomial, polynomial_to_expr, rid_ending_zeros, is_polynomial", "src/simpy/polynomial.py"), ("invert", "src/simpy/linalg.py"), ("PolynomialDivision, PartialFractions", T)], ["to_const_polynomial", "polynomial_to_expr", "rid_ending_zeros", "invert", "PolynomialDivision", "PartialFractions"])
prop("C16", "A successful pattern match reproduces the expression",
 "Whenever matching an expression against a pattern with wildcards succeeds, substituting the reported matches into the pattern, multiplying by the reported factor and adding the reported rest gives back an expression equal in value to the original; one wildcard never stands for two different things.",
 ["inputs"], "expressions of the stated shapes with arbitrary rational coefficients against the patterns used by the simplifier and simple variations",
 "Tests match about a dozen literal pairs.",
 [R], [("eq / Eq, divide_anys, consolidate", R)], ["regex.eq"])
prop("C17", "Printed text denotes the expression",
 "Reading repr(e) with ordinary precedence rules (^ right of unary minus and above * and /, which are above + and -; juxtaposed signs as printed) gives an expression with the same value as e at every point, for any nesting and any sign or fraction of coefficients and exponents.",
 ["inputs"], "expressions of the stated shapes with arbitrary rational coefficients and exponents",
 "Tests compare about thirty literal strings.",
 [X], [("__repr__ methods", X)], ["repr(e)"])
prop("C18", "LaTeX output denotes the expression",
 "Reading latex(e) with ordinary LaTeX grouping and operator precedence gives an expression with the same value as e at every point, for any nesting and any sign or fraction of coefficients and exponents, and braces and \\left/\\right pairs balance.",
 ["inputs"], "expressions of the stated shapes with arbitrary rational coefficients and exponents",
 "Tests compare fifteen literal strings.",
 [X, "src/simpy/latex.py"], [("latex methods", X), ("bracketfy, group", "src/simpy/latex.py")], ["latex(e)"])
prop("C19", "The integration search tree reports its status correctly",
 "In any goal tree an OR node counts as solved exactly when some alternative is solved and as failed exactly when all are, an AND (or single-child) node as solved exactly when all parts are and failed exactly when some part is, no node is both; the open leaves reported are exactly the leaves that are neither, the node chosen to work on next is one of the open nodes, and a problem already being worked on above is never added again below (up to renaming its variable).",
 ["inputs", "histories"], "all trees up to the stated size with arbitrary node kinds and leaf states",
 "Tests only see the trees that the test integrals happen to build.",
 [T, I], [("Node properties", T), ("next-node selection", I), ("Node.add_child ancestor check", T)], ["Node.is_solved / is_failed / is_finished / leaves / unfinished_leaves / is_stale", "next node selection"],
 state=[("Node.type and children", "goal tree", T)])
prop("C20", "Numeric evaluation agrees with the exact value",
 "evalf() of a symbol-free expression (and of an expression after its symbols are substituted) denotes the value of the expression, computed in real arithmetic: the same operations are applied to the same operands, whatever mixture of integers, fractions, decimals, pi and e it contains, and a decimal result is a decimal number object.",
 ["inputs"], "expressions of the stated shapes with arbitrary rational coefficients (floating-point rounding itself abstracted to real arithmetic)",
 "Tests evaluate the trig tables and one fraction.",
 [X], [("evalf / _evalf methods", X), ("Float contagion in accumulate", X)], ["evalf()"])
prop("C21", "Structural queries are exact",
 "symbols() lists each symbol occurring in an expression exactly once, contains(v) is true exactly when v occurs, has(cls) exactly when a node of that class occurs, count(e, q) is the number of non-overlapping occurrences of q, and two (expression, variable) pairs are reported equal up to renaming exactly when renaming one variable into the other makes the expressions equal.",
 ["inputs"], "expressions of the stated shapes with arbitrary rational coefficients, exponents and symbol names",
 "Tests check two counts.",
 [X, R, "src/simpy/utils.py"], [("symbols, contains", X), ("count, contains_cls", R), ("eq_with_var, count_symbols", "src/simpy/utils.py")], ["symbols()", "contains()", "has()", "count()", "eq_with_var()"])
prop("C22", "Infinity behaves like the extended reals",
 "Adding, multiplying, raising, negating and comparing numbers with inf and -inf follows the extended real line: every finite number lies strictly between -inf and inf, finite +/- infinite keeps the infinity, a non-zero finite factor keeps or flips its sign by its own sign, and the finite limit e**(-inf) is 0.",
 ["inputs"], "all rational numbers combined with the two infinities in the stated operations",
 "Tests check ten literals.",
 [X], [("Infinity, NegInfinity, accumulate, Power.__new__", X)], ["inf arithmetic and comparisons"])
prop("C23", "integrate() always returns within its time limit",
 "For every integrand, integrate() terminates close to its time limit, either with an antiderivative or with None.",
 ["inputs"], "all integrands",
 "A time bound over all inputs cannot be sampled.",
 [I], [("Integration.integrate loop and _timeout", I)], ["integrate"])
prop("C24", "Floating-point evaluation is accurate to a few ulps",
 "evalf() returns a float within a small relative error of the exact value of the expression.",
 ["inputs"], "all symbol-free expressions",
 "Rounding error depends on the particular operands.",
 [X], [("_evalf methods over math.*", X)], ["evalf()"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
