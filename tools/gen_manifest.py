#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the compiler's MIR (value numbering and polynomial/sign domains, trace partitioning)"
VAL = " Values are compared as exact real-number formulas, so rounding errors are out of scope; sizes, dimensions and step counts are the enumerated ones; trusts rustc's MIR and the interpreter's transfer functions."
T = {
"C01": (AI, "For every listed curve type, size and dimension the formula computed on every path equals the Bernstein form for all control points and all t."),
"C02": (AI, "Every axis sampler equals the required Bernstein coordinate for all control points and t, dimensions 1-16."),
"C03": (AI, "Every control point of both halves equals the blossom value that characterises the sub-curve, for all control points and t."),
"C04": (AI + ": copy propagation and value numbers", "Both sides of the join carry one value number (the same IEEE operations on the same operands), the outer ends are copies: holds bit for bit."),
"C05": (AI, "Derivative curves equal the hodograph for all control points, sizes and dimensions listed."),
"C06": (AI, "Direct derivative samples equal the hodograph coordinate for all control points and t."),
"C07": (AI + " with case analysis over the signs of the derivative's coefficients", "On every path the bounds are exactly the end values and the curve values at the extrema in (0,1), for all finite control points."),
"C08": (AI, "On every path the result is the distance to the clamped projection."),
"C09": (AI + ": set of candidate values of the minimum", "Every candidate of the minimum is the distance to a curve point with parameter in [0,1] and the grid i/64 is among the candidates."),
"C10": (AI, "The returned sum consists of exactly the n chords, for the listed step counts (including those around every integer literal in the library)."),
"C11": (AI + " over order cells of the knot vector", "Acceptance is decided for symbolic knots (equivalence with the pairwise order), NaN at every position and every tie pattern."),
"C12": (AI + " over order cells of the knot vector and parameter", "Success is equivalent to lying in the knot domain for every tie pattern and parameter position of the listed shapes, and for NaN and infinite parameters."),
"C13": (AI + " over order cells of the knot vector and parameter", "The value equals the Cox-de Boor sum for every tie pattern and parameter position of the listed shapes, with symbolic gaps."),
"C14": (AI + " over order cells of the knot vector and parameter", "The derivative spline's value equals the derivative of the Cox-de Boor sum in every cell of the listed shapes."),
"C15": (AI + " over order cells of the knot vector", "The returned sum consists of exactly the n chords over the knot domain; spans are symbolic for one-span domains and spaced by listed rational gaps otherwise."),
"C16": ("compiler-enforced rules: unsafe code forbidden, crate-graph query, and type checking against targets that have only core; plus a lint over the source tokens of every configuration", "The library type-checks against core alone for 32- and 64-bit targets without an operating system, its crate graph has no std or alloc, and no function, impl or block is unsafe; no source file mentions std, alloc or unsafe under any cfg."),
"C17": (AI + ": every panic edge and loop exit", "Every path of every public operation reaches its return; no panic edge (bounds, overflow, unwrap) is feasible and every loop terminates, for the listed sizes and step counts."),
"C18": (AI, "Operators, equality, default, axes and iteration are decided for every coordinate of dimensions 1-16."),
"C19": ("lint over the type-checked program and MIR: statics, interior mutability, foreign items and calls outside the crate's arguments", "No construct of the library can read or write state outside its arguments; decided for every function body before monomorphisation."),
"C20": (AI, "On every path the predicate is equivalent to the distance conditions of the property, for all control points and tolerances >= 0."),
"C21": (AI + ": copy propagation and value numbers", "Control points flow through constructors, accessors and conversions as copies, bit for bit."),
"C22": (AI + ": dependence and sibling comparison across dimensions", "Coordinate k of each result is the one-dimensional operation applied to coordinate k, for PointN of dimensions 1-4 and a user-defined Point."),
"C23": (AI, "The weights of the control points sum to one (zero for derivatives) and are non-negative in the domain, as formulas for all t."),
"C24": (AI + " with IEEE identities for exact zero and one factors", "The end values are equal floating-point values: every weight is exactly 0 or 1 and no other operation rounds."),
"C28": (AI + ": path conditions of the equality operators, copy propagation for clones", "On every path the result of == is equivalent to the conjunction of the coordinate equalities (and != to its negation); clones carry the same value numbers."),
"C29": (AI + ": feasibility of the return edge", "For every listed index beyond the dimension no path returns: all end in a panic edge."),
"C30": ("query over the type-checked program (visibility of fields, signatures of every public function, method and trait impl) and " + AI, "No public item hands out mutable access to a B-spline and only new, derivative and clone return one; the stored knots are shown to be ordered for symbolic knots."),
"C31": (AI + " over order cells of the knot vector and parameter", "Weights of far control points are the zero formula; the formulas of neighbouring spans agree at the knot to the promised order, with symbolic gaps."),
"C32": (AI + " over order cells of the knot vector and parameter", "The derived formula of the transformed description equals that of the original for all control points, parameters, factors and offsets."),
}
checks = []
for p, (tech, note) in T.items():
    tail = VAL if p not in ("C16", "C19", "C04", "C21", "C24") else (" Trusts rustc's analyses; the crate has a single configuration." if p in ("C16", "C19") else " Sizes and dimensions are the enumerated ones; trusts rustc's MIR and the interpreter's transfer functions.")
    checks.append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
                       technique=tech, level="other", level_note=note + tail))
na = [
 dict(property="C25", reason="A bound on accumulated floating-point rounding quantifies over runtime magnitudes (cancellation between arbitrary control points); the normal forms used here are exact reals, and an interval error analysis without bounds on the inputs gives no finite relative bound."),
 dict(property="C26", reason="Convergence and its rate are limits over all step counts; the structural part (which chords are summed) is decided by C10 and C15, the limit itself is analysis, not a property of the program text."),
 dict(property="C27", reason="How far a sampled minimum is from the true minimum depends on the runtime curve and point; the structural part (which candidates are tried, all on the curve) is decided by C09."),
]
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
  notes="Every check is a static analysis of /repo's current source through the compiler (driver/ is a rustc driver, harness/ only instantiates the library's generics). known_findings.txt lists the defects repaired in /repo."),
  open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
