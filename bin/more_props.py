S = "src/symbols/"
P += [
 ("C06", "Comparison verdicts are true of the values",
  "When equal, not_equal, greater, lesser, greater_equal, lesser_equal or comparable returns true for two expressions, the values stand in that relation whatever the variables stand for (comparable: the difference does not depend on the variables). For two integers or two reals the answers are decided both ways: exactly the true relations are reported.",
  ["inputs", "programs"], "all pairs drawn from 13 kinds of expression (polynomials, products of sums, fractions, powers, reals) with unbounded coefficients; numbers: sums, differences, products of two numbers",
  "Two expressions are compared by simplifying their difference, so every coefficient and sign takes its own path; the tests compare a handful of constants.",
  [M+"expression_equality.rs", M+"expression_comparison.rs", M+"simplifiable.rs", M+"expand.rs"],
  [("comparisons through the simplified difference", M+"expression_comparison.rs")], TECH,
  "4 symbolic coefficients per pair (5 thorough)"),
 ("C07", "Comparisons agree with each other",
  "For any two expressions of integers and variables: exactly one of lesser, equal, greater holds when they are comparable and none otherwise; not_equal, greater_equal and lesser_equal follow from those; swapping the operands mirrors the answers. Every expression equals itself, and equality and order of three expressions chain.",
  ["inputs", "programs"], "pairs and triples from the same families as for the verdicts, and all operator trees to depth 1 (self-comparison: depth 2)",
  "Laws over pairs and triples need all combinations of coefficients, and both directions are separate computations.",
  [M+"expression_equality.rs", M+"expression_comparison.rs"],
  [("comparisons", M+"expression_comparison.rs")], TECH,
  "integers and variables; reals only next to integers up to 999"),
 ("C08", "Structural equality, order and hash obey their laws",
  "Expression's == is an equivalence, its order is total (antisymmetric, transitive, agreeing with ==), partial_cmp agrees with cmp, and equal expressions feed the same data to a hasher, for every kind of node including sine and cosine.",
  ["inputs", "programs"], "pairs of all 9 kinds of node with children to depth 2, triples; integers unbounded, reals k/4, associations built in any order",
  "The laws quantify over pairs and triples of arbitrary structures; associations are heaps whose internal order differs for equal content.",
  [M+"ordeable.rs", M+"expression_equality.rs", "src/base/expression.rs", "src/base/commutative_association.rs", "src/base/associative_operation.rs", "src/base/operation.rs"],
  [("structural order", M+"ordeable.rs")], TECH, "depth 2, 3 items per association"),
 ("C10", "The order of operands does not matter",
  "Sums and products built from the same operands in another order, with any operator overload or constructor, are the same expression; so are those built in another grouping (in sums: as far as the reals in it add exactly, and unless a negative real takes part, which ncas keeps apart as a subtracted one).",
  ["inputs", "programs", "histories"], "2-3 operands (4 thorough) of 8 kinds in every order; 3-17 operands in five other orders and four groupings; both operand ownership forms of every operator",
  "The tests try one order; the constructors look at operands one after another and keep them in a heap.",
  [A+"addition.rs", A+"multiplication.rs", A+"subtraction.rs", A+"division.rs", "src/base/commutative_association.rs"],
  [("association constructors", A+"addition.rs"), ("heap of items", "src/base/commutative_association.rs")], TECH, "operands as listed"),
 ("C11", "Built expressions are in canonical form",
  "Expressions made by the constructors contain no neutral elements (adding 0, multiplying by 0 or 1, powers 0 and 1), no sum directly inside a sum or product inside a product, no powers of powers, and at most one integer and one real per association. A number computed from integers alone is a single integer, or a fraction in lowest terms when division is involved.",
  ["inputs", "programs"], "all operator trees to depth 2, associations of up to 4 operands, powers of 11 kinds of base and 12 kinds of exponent",
  "Whether the form is canonical depends on the values that meet: cancellation, divisibility and signs decide.",
  [A+"addition.rs", A+"multiplication.rs", A+"division.rs", E+"power.rs", E+"logarithm.rs"],
  [("constructors", A+"addition.rs"), ("power constructor", E+"power.rs")], TECH, "depth 2; a sign factor -1 next to a real counts as part of the real"),
 ("C15", "Polynomial identities are recognised",
  "Two polynomials with integer coefficients that are equal as functions compare equal with equal(), and two that differ do not, however each is written (expanded, factored, nested, in any order).",
  ["inputs", "programs"], "polynomials in up to four variables written as sums, products and powers of sums with unbounded symbolic coefficients, against expanded forms with their own symbolic coefficients",
  "Equality of polynomials has to hold for every choice of coefficients; the tests check two identities.",
  [M+"expand.rs", M+"expansion_rules/", M+"simplification_rules/factoring/additive_common_addend.rs", M+"expression_equality.rs"],
  [("expansion and collection", M+"simplifiable.rs")], TECH, "degree up to 3 (4 thorough)"),
 ("C16", "Expanding leaves nothing to expand",
  "The expansion of a polynomial is a flat sum of monomials: no product or natural power contains a sum, like terms are collected by simplification, and expanding again changes nothing. Polynomials inside powers, logarithms and quotients are expanded likewise.",
  ["inputs", "programs"], "products and powers of sums, nested to depth 2, with symbolic coefficients, also inside sums, quotients and logarithms",
  "Distribution has to reach every nesting of sums, products and powers.",
  [M+"expand.rs", M+"expansion_rules/multiplicative_distributive.rs", M+"expansion_rules/power_distributive_addition.rs", M+"expansion_rules/power_distributive_multiplication.rs"],
  [("expansion", M+"expand.rs")], TECH, "nesting depth 2, 2-3 terms per sum, powers up to 3"),
 ("C20", "Simplifying reaches a normal form",
  "Simplifying a polynomial gives at most one term per monomial, none with coefficient zero, and a constant polynomial becomes a plain number; simplifying the result again changes nothing. Polynomials inside powers, logarithms and quotients are simplified likewise, and equal logarithms or symbolic powers in a sum are collected into one term.",
  ["inputs", "programs"], "polynomials with symbolic coefficients, written as sums, products and powers of sums, alone and inside powers and logarithms; sums of multiples of logarithms and symbolic powers",
  "Which terms meet and cancel depends on the coefficients.",
  [M+"simplifiable.rs", M+"simplification_rules/factoring/", M+"expand.rs"],
  [("simplification", M+"simplifiable.rs")], TECH, "up to 4 terms"),
 ("C09", "Number and name symbols obey the laws of their values",
  "Real symbols compute + - * / as floating point does, are ordered by their values, and their ==, order and hash agree with each other (an equivalence and a total order), for every value including infinities, signed zeros and not-a-number. Variable symbols are told apart and ordered by their names alone.",
  ["inputs"], "all f64 bit patterns in pairs and triples for equality, order and hash; arithmetic on reals k/4 and 12 x 12 edge values; names from a list (names of 1-2 characters, all of them, in the thorough tier)",
  "Laws of order and hash on floating point fail only at particular bit patterns (signed zeros, not-a-number), in pairs and triples.",
  [S+"real.rs", S+"variable.rs", "src/base/symbol.rs"],
  [("real symbols", S+"real.rs"), ("order, equality and hash of symbols", "src/base/symbol.rs")], KANI, "all 2^64 values for the laws"),
 ("C12", "The iteration order of hash maps never shows",
  "Simplifying, collecting addends and collecting factors give the same expression, and comparisons the same verdicts, whatever order the internal hash maps hand out their entries in.",
  ["schedules", "inputs"], "all permutations of up to 4 entries of every hash map iterated, on sums, products and nested expressions with symbolic coefficients",
  "Iteration order is random per process; a test sees one order per run.",
  [M+"simplification_rules/factoring/additive_common_addend.rs", M+"simplification_rules/factoring/multiplicative_common_factor.rs", M+"simplifiable.rs"],
  [("collection of like terms through a hash map", M+"simplification_rules/factoring/")], TECH, "maps of up to 4 entries, 2 symbolic coefficients"),
 ("C13", "Rational numbers are exact and in lowest terms",
  "Rational numbers made from two integers, or from an expression of integers and inverses, and their sums, differences, products and quotients have the exact value in lowest terms; == is equality of values; converting to an expression and back loses nothing. Expressions that are not rational numbers are not taken for one, and simplifying a sum or product of fractions gives one fraction in lowest terms.",
  ["inputs"], "numerators and denominators as symbolic integers in the stated ranges, three of four at a time",
  "Exactness, lowest terms and signs have to hold for all integers; the tests use a few small fractions.",
  [M+"simplification_rules/rational/rationals.rs", M+"simplification_rules/rational/rationals_addition.rs", M+"simplification_rules/rational/rationals_multiplication.rs"],
  [("rational numbers", M+"simplification_rules/rational/rationals.rs")], TECH,
  "numerators ±2^126; denominators ±30 and large constants; zero denominators are outside"),
 ("C14", "Integer symbols compute exactly",
  "Integer symbols add, subtract, multiply, divide (towards zero), take remainders, powers, opposites, gcd and lcm exactly at any size, in every combination of owned and borrowed operands. Sign, order, equality, hash, label and conversions agree with the value, and conversions that do not fit say so.",
  ["inputs"], "integers in ±2^126, divisors in ±12 and beyond the machine word, ±2^200 to ±2^4000 for conversions",
  "Exactness at any size, sign conventions and the limits of machine words need values the tests do not try.",
  [S+"integer.rs", "src/base/symbol.rs"],
  [("integer symbols", S+"integer.rs")], TECH, "integers ±2^126; exponents up to 9 symbolic, 257 concrete, 2^130 for -1, 0 and 1"),
 ("C17", "No operation panics where it is defined",
  "Building, expanding, simplifying, comparing, hashing, printing and taking apart an expression, and applying any single rewriting rule to it, finishes without a panic or overflow whenever the mathematical operations in it are defined (no division by zero, no 0^0, positive logarithm bases).",
  ["inputs", "programs"], "all trees to depth 2, numbers up to 2^1100 and at the limits of floating point, powers and logarithms, nodes with 0-3 items put together by hand",
  "A panic hides behind one particular combination of kinds, signs or sizes.",
  ["src/base/", A, E, M],
  [("constructors", A), ("rewriting", M)], TECH, "depth 2; exponents of sums up to 3"),
 ("C18", "Associations hand out exactly their items",
  "The items of a sum or product are exactly those it was made from, in structural order, and each selecting accessor (reals, rationals, non-rationals, symbolics, numerators, denominators, get, get_one, map) returns exactly the items it names (get_one: the first), in structural order and repeated ones included, without changing the association. Powers, logarithms, sines and cosines hand out the argument and modifier they were made from.",
  ["inputs", "programs"], "associations of 0-3 items (4 thorough) of 12 kinds, 10 accessors",
  "Selection is by kind and content over a heap; losing a duplicate or an item needs particular combinations.",
  ["src/base/commutative_association.rs", "src/base/associative_operation.rs", "src/base/operation.rs"],
  [("heap of items and its accessors", "src/base/commutative_association.rs")], TECH, "up to 3 items (4 thorough)"),
 ("C19", "The printed text says what the expression is",
  "The text of an expression, read with its brackets and infix operators, gives back the structure, names and values of the expression; numbers are written with all their digits and sign.",
  ["inputs", "programs"], "all trees of sums, products, powers, logarithms to depth 2 with symbolic integers and reals; every kind of node with 1-3 items of 12 kinds; built, expanded and simplified trees",
  "Different expressions must not print alike in any nesting; the tests print a few.",
  ["src/base/expression.rs", "src/base/commutative_association.rs", "src/base/associative_operation.rs", "src/base/operation.rs", S],
  [("Display", "src/base/")], TECH, "depth 2; a real of whole value may print as that integer"),
]
