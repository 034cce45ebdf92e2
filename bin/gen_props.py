#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("symbolic execution of the real code (MIR of the current tree, instrumented at compile time), path conditions and "
        "negated properties decided by z3; counterexamples replayed on the unmodified build")
KANI = "bounded model checking of the real code with Kani/CBMC (SAT), together with " + TECH
A = "src/arithmetics/"
M = "src/manipulation/"
E = "src/exponential/"
P = [
 ("C01", "Arithmetic keeps the mathematical value",
  "Building an expression with + - * / or negation, through any operator overload or constructor and in any nesting, yields an expression whose value equals the value of the operation on the operands, for every value of the variables. Integers are exact at any size; reals agree up to rounding.",
  ["inputs", "programs"], "all operator trees up to the stated depth over integer, real and variable leaves; all integer values (unbounded), reals k/4, all variable values where the operation is defined",
  "The tests compare a few dozen fixed sums and products with fixed results; the construction-time rewriting branches on the sign, size, divisibility and kind of every operand.",
  [A+"addition.rs", A+"subtraction.rs", A+"multiplication.rs", A+"division.rs", "src/symbols/integer.rs"],
  [("construction-time arithmetic rewriting", A), ("rational number arithmetic", M+"simplification_rules/rational/rationals.rs")], TECH,
  "trees to depth 2 (3 thorough), integers beyond 2^126, per-shape path limits in the quick tier"),
 ("C02", "Powers and logarithms keep the mathematical value",
  "Raising to a power and taking logarithms, for numbers and for symbolic bases and exponents, yields an expression equal in value to the mathematical power or logarithm wherever that is defined. The inverse laws b^log_b(x) = x and log_b(b^x) = x hold.",
  ["inputs", "programs"], "integer and real bases and exponents in the stated ranges (one of them unbounded where the result stays representable), 11 kinds of symbolic base and 12 kinds of exponent, nesting depth 2; positive variables for non-integer exponents",
  "The tests fix single bases and exponents; the code takes different branches for negative, fractional, zero, product and power bases and for each kind of exponent.",
  [E+"power.rs", E+"logarithm.rs", M+"simplification_rules/identities/inverse_power_log.rs"],
  [("power constructor", E+"power.rs"), ("logarithm constructor", E+"logarithm.rs")], TECH,
  "exponents -4..5 symbolic, real exponents from a list of short binary fractions"),
 ("C03", "Expanding keeps the value",
  "Expanding an expression returns an expression with the same value for every value of the variables for which the original is defined.",
  ["inputs", "programs"], "sums, products, powers, quotients, fractions and exponentials of the stated families, with coefficients unbounded for practical purposes (±2^126)",
  "The tests expand fixed polynomials; distribution interacts with sign, like terms, nested powers and fractions.",
  [M+"expand.rs", M+"expansion_rules/multiplicative_distributive.rs", M+"expansion_rules/power_distributive_addition.rs", M+"expansion_rules/power_distributive_multiplication.rs"],
  [("expansion", M+"expand.rs")], TECH,
  "2-3 terms or factors (4 thorough), powers -2..3 (-4..4 thorough)"),
 ("C04", "Simplifying keeps the value",
  "Simplifying an expression returns an expression with the same value for every value of the variables for which the original is defined.",
  ["inputs", "programs"], "the same families as for expansion",
  "The tests simplify fixed expressions; simplification composes expansion, collection of addends and factors, fractions and inverse powers, whose interplay depends on coefficients and shapes.",
  [M+"simplifiable.rs", M+"simplification_rules/"],
  [("simplification", M+"simplifiable.rs")], TECH,
  "2-3 terms or factors (4 thorough), powers -2..3 (-4..4 thorough)"),
 ("C05", "Every rewriting rule on its own keeps the value",
  "Each public rewriting rule (distribution, powers of sums and of products, collecting addends, collecting factors, single denominator, inverse power and logarithm, sums and products of fractions), applied to any expression of its kind or another, returns an expression with the same value.",
  ["inputs", "programs"], "9 rules; sums and products of 2-3 parts of up to 10 kinds, symbolic and whole exponents, coefficients ±2^126",
  "Most rules have no test of their own; their branches depend on coefficients, exponents and what repeats.",
  [M+"expansion_rules/", M+"simplification_rules/factoring/", M+"simplification_rules/identities/", M+"simplification_rules/rational/"],
  [("rules", M+"simplification_rules/rule.rs")], TECH,
  "2-3 parts (5 thorough)"),
]
NA = []
exec(open(os.path.join(ROOT, "bin", "more_props.py")).read()) if os.path.exists(os.path.join(ROOT, "bin", "more_props.py")) else None
P.sort(key=lambda p: p[0])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for (id, title, st, over, text, why, files, mech, tech, note) in P:
        f.write(json.dumps({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                            "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}) + "\n")
m = {"version": 1, "setup_cmd": "bash engine/build_sym.sh && bash engine/build_native.sh", "checks": [], "not_applicable": [{"property": a, "reason": b} for a, b in NA]}
na = {a for a, _ in NA}
for (id, title, st, over, text, why, files, mech, tech, note) in P:
    if id in na:
        continue
    m["checks"].append({"property": id, "quick_cmd": "python3 bin/check %s quick" % id, "thorough_cmd": "python3 bin/check %s thorough" % id,
                        "evidence_file": "evidence/%s.json" % id, "technique": tech, "level": "model_checking",
                        "level_note": "every path of the stated families within the bounds is decided by the solver for all values of its symbolic inputs; " + note})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
