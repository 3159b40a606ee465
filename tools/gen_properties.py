#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The text lives here so that it is reviewable."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
L,Q,C,B,S,BS,PN,PT = ("src/line.rs","src/quadratic_bezier.rs","src/cubic_bezier.rs","src/bezier.rs",
                "src/bezier_segment.rs","src/bspline.rs","src/point_generic.rs","src/point.rs")

p("C01","Every Bezier evaluator computes the Bernstein form",
  "For every line segment, quadratic, cubic and generic Bezier curve and every parameter t, every way of evaluating the curve (direct evaluation, De Casteljau evaluation, the spline trait, the segment enum) returns the sum over i of binom(n,i) (1-t)^(n-i) t^i P_i, up to floating-point rounding. In particular all evaluators of one curve agree, and the specialised curves agree with the generic curve of the same control points.",
  ["inputs","configurations"],"all control points, all t, all dimensions, all numbers of control points N >= 1, all Point implementations that are vector spaces",
  "eval_equivalence / equivalence_* tests sample one or two fixed curves in 2D with N=3,4 at 1001 values of t; nothing covers other N, dimensions, the enum, or the trait entry point.",
  [L,Q,C,B,S,"src/spline.rs"],
  [("LineSegment::eval",L),("QuadraticBezier::eval, eval_casteljau",Q),("CubicBezier::eval, eval_casteljau",C),("Bezier::eval, Spline::eval",B),("BezierSegment::eval",S)],
  ["return value of eval / eval_casteljau"])
p("C02","Single-axis sampling agrees with evaluating the point",
  "For line segments, quadratic and cubic curves, sampling one coordinate axis at t returns that coordinate of the curve's Bernstein value at t, for every axis below the point dimension, up to rounding.",
  ["inputs"],"all control points, all t, every valid axis, all dimensions",
  "No test calls axis() of any curve.",[L,Q,C],[("LineSegment::axis",L),("QuadraticBezier::axis",Q),("CubicBezier::axis",C)],["return value of axis"])
p("C03","Splitting yields the two sub-curves of the original",
  "Splitting a line segment, quadratic, cubic or generic Bezier curve (directly or through the segment enum) at t gives a left part with left(s) = curve(t*s) and a right part with right(s) = curve(t + (1-t)*s) for every s, up to rounding. The parts have the same degree and the same variant as the original.",
  ["inputs","configurations"],"all control points, all t, all s, all N >= 1, all dimensions",
  "split_equivalence tests split one fixed curve per type at t=0.5 only (where t and 1-t cannot be told apart), never the line or the enum.",
  [L,Q,C,B,S],[("split",L),("split",Q),("split",C),("Bezier::split",B),("BezierSegment::split",S)],["both curves returned by split"])
p("C04","Splitting is watertight bit for bit",
  "For every split, the last control point of the left part and the first control point of the right part are the same floating-point values bit for bit. The first control point of the left part and the last control point of the right part are bit-for-bit copies of the original curve's first and last control points.",
  ["inputs","configurations"],"all control points, all t, all curve types, all N >= 1, all dimensions",
  "Existing tests compare with a squared-length tolerance; they cannot see a join that differs in the last bit, nor other values of t.",
  [L,Q,C,B,S],[("split",L),("split",Q),("split",C),("Bezier::split",B)],["control points of the curves returned by split"])
p("C05","The derivative curve is the exact hodograph",
  "For line segments, quadratic, cubic and generic Bezier curves (at least two control points), evaluating the derivative object at t equals the derivative of the curve's Bernstein form with respect to t, for every t, up to rounding. The derivative has degree one less than the curve, and derivatives of derivatives are the higher derivatives.",
  ["inputs","configurations"],"all control points, all t, all N >= 2, all dimensions",
  "No test evaluates any derivative.",[L,Q,C,B],[("derivative",L),("derivative",Q),("derivative",C),("Bezier::derivative",B)],["derivative().eval(t)"])
p("C06","The direct derivative sample agrees with the derivative curve",
  "For quadratic and cubic curves the direct derivative of one axis at t equals that coordinate of the derivative of the curve with respect to t, for every t and every valid axis, up to rounding.",
  ["inputs"],"all control points, all t, every valid axis, all dimensions",
  "No test calls dd().",[Q,C],[("dd",Q),("dd",C)],["return value of dd"])
p("C07","Bounding boxes contain the curve and are tight",
  "For every line segment, quadratic and cubic curve with finite control points, the bounding box of every dimension is the interval from the minimum to the maximum of that coordinate of the curve over t in [0,1], reported as (min, max) with min <= max, up to rounding. It therefore contains the whole curve and every face is touched by a point of the curve, in every dimension.",
  ["inputs"],"all finite control points, including monotone, degenerate, straight and reversed curves, all dimensions",
  "bounding_box_contains checks containment (with tolerance 0.01) of one 2D curve per type; tightness, degenerate coefficients (a = 0), no interior root, and other dimensions are never exercised.",
  [L,Q,C],[("bounding_box",L),("bounding_box",Q),("bounding_box",C),("real_roots",Q),("root",L)],["return value of bounding_box"])
p("C08","Segment distance is the distance to the nearest point of the segment",
  "For every line segment with distinct end points and every point, distance_to_point returns the distance to the point of the segment obtained by clamping the orthogonal projection parameter to [0,1]. For a segment with coinciding end points it returns the distance to that point.",
  ["inputs"],"all segments, all points (before, beside and beyond the segment), all dimensions",
  "The only test projects into the interior / onto the start, and omits abs(), so a too-small result passes.",
  [L],[("LineSegment::distance_to_point",L)],["return value of distance_to_point"])
p("C09","Curve distance is attained on the curve and bounded by the sample grid",
  "For quadratic, cubic and generic Bezier curves, distance_to_point returns the distance from the point to some point of the curve whose parameter lies in [0,1], so it is never below the true minimum distance. It is at most the distance to every curve point at the parameters i/64 for i = 0..64, including both end points of the curve.",
  ["inputs","configurations"],"all control points, all query points, all dimensions, N >= 1",
  "One test per type compares two far-away points; it cannot see parameters outside [0,1], a missing end point, or an overestimate.",
  [Q,C,B],[("distance_to_point",Q),("distance_to_point",C),("Bezier::distance_to_point",B)],["return value of distance_to_point"])
p("C10","Arc length of Bezier curves sums the whole inscribed polyline",
  "For quadratic, cubic and generic Bezier curves and every step count n >= 1, arclen(n) is the length of the polyline through the n+1 curve points at parameters i/n, i = 0..n, up to rounding: every chord exactly once, from the start to the end of the curve.",
  ["inputs","configurations"],"all control points, all step counts, all dimensions, all N >= 1",
  "Only the cubic circle is tested, at 1000 steps with tolerance 0.01, where one missing chord is invisible.",
  [Q,C,B],[("arclen",Q),("arclen",C),("Bezier::arclen",B)],["return value of arclen"])
p("C11","The B-spline constructor accepts exactly the valid inputs",
  "Construction with C control points, K knots and degree D fails with the too-few-control-points error when C <= D, otherwise with too-few / too-many-knots when K is below / above C+D+1, otherwise with the decreasing-knots error when the knots are not non-decreasing (a NaN knot counts as not non-decreasing), and succeeds in every other case. A constructed spline stores exactly the given knots and control points, in order.",
  ["inputs","configurations"],"all knot values including NaN, all (K,C,D), all control points",
  "Tests construct a handful of valid splines; no error path of the constructor is exercised.",
  [BS],[("BSpline::new",BS),("control_points, knots",BS)],["Result of BSpline::new","knots()","control_points()"])
p("C12","B-spline evaluation succeeds exactly on the knot domain",
  "For every constructed B-spline with finite knots (whose differences are finite) the knot domain is [knot[D], knot[C]], whatever the multiplicities of the knots. Evaluation succeeds for every t in that closed interval and returns the knot-domain error for every other t, including NaN; it never panics and never returns another error.",
  ["inputs","configurations"],"all non-decreasing finite knot vectors with any multiplicities (unclamped, clamped at either or both ends), every t including NaN and the knots themselves",
  "Tests sample 101 parameters of uniform or fully clamped knot vectors; half-clamped and repeated-knot vectors and NaN are never evaluated.",
  [BS],[("eval",BS),("knot_domain*",BS),("knot_span_start_for_t*",BS),("de_boor_iterative",BS)],["Result of eval","knot_domain()"])
p("C13","B-spline evaluation is the Cox-de Boor sum",
  "For every constructed B-spline with finite knots and knot differences and interior knot multiplicity at most max(D,1) (D+1 at the two ends of the domain) and every t in the knot domain, evaluation returns the sum over i of N_{i,D}(t) P_i with the Cox-de Boor basis functions (taking the left limit at the end of the domain), up to rounding. Consequently a spline clamped at an end interpolates its first / last control point there, and a clamped spline without interior knots is the Bezier curve of the same control points.",
  ["inputs","configurations"],"all such knot vectors, all control points, every t in the domain, all degrees",
  "Tests only assert is_ok() in the interior and equality at the ends of clamped splines: any interior value passes.",
  [BS],[("de_boor_iterative",BS),("knot_span_start_for_t*",BS)],["Ok value of eval"])
p("C14","The B-spline derivative evaluates to the derivative of the spline",
  "For every constructed B-spline with finite knots and knot differences, of degree D >= 1 with interior knot multiplicity at most D, evaluating the derivative spline at t in the knot domain (where the spline does not jump at t) returns the derivative of the Cox-de Boor sum with respect to t (the right derivative at interior knots, the left derivative at the end of the domain), up to rounding. The derivative spline has the same knot domain as the original, and its own derivative is the second derivative.",
  ["inputs","configurations"],"all such knot vectors, control points, degrees D >= 1, every t in the domain",
  "No test calls derivative() of a B-spline (the source says 'TODO test & verify!').",
  [BS],[("BSpline::derivative",BS)],["derivative().eval(t)","derivative().knot_domain()"])
p("C15","B-spline arc length sums the whole inscribed polyline",
  "For every constructed B-spline with finite knots and every step count n >= 1, arclen(n) is the length of the polyline through the n+1 spline points at parameters kmin + (i/n)(kmax-kmin), i = 0..n, over the knot domain [kmin,kmax], up to rounding. No evaluation outside the domain contributes.",
  ["inputs","configurations"],"all constructed splines, all step counts",
  "No test calls arclen of a B-spline.",[BS],[("BSpline::arclen",BS)],["return value of arclen"])
p("C16","No std, no heap allocation, no unsafe code, any pointer width",
  "The library links neither the standard library nor an allocator, performs no heap allocation, and contains no unsafe code. It type-checks for targets without an operating system and for 32-bit as well as 64-bit targets.",
  ["configurations","programs"],"every build configuration of the library crate and every function it can call",
  "Unit tests run hosted on x86_64 with std and an allocator present; they cannot notice a dependency on either.",
  ["src/lib.rs","Cargo.toml"],[("#![no_std], #![forbid(unsafe_code)]","src/lib.rs"),("dependency features","Cargo.toml")],["crate graph","cross build"])
p("C17","Public operations neither panic nor hang on well-formed input",
  "For curves with at least one control point (two for derivatives), finite coordinates whose intermediate results are finite, and valid axis indices, no public evaluation, splitting, derivative, bounding-box, distance, arc-length, predicate or B-spline operation panics (index out of bounds, arithmetic overflow, unwrap) and every one of them terminates. B-spline construction and evaluation do not panic even for NaN knots or NaN parameters.",
  ["inputs","configurations"],"all such inputs, step counts, sizes and dimensions",
  "Tests visit a few sizes and parameter values; index arithmetic (j + k - D, mid - 1, fixed-capacity vectors) depends on all of them.",
  [L,Q,C,B,S,BS,PN],[("index arithmetic and fixed-capacity ArrayVec pushes","src/*.rs")],["panics","non-termination"])
p("C18","PointN is a coordinate-wise vector space",
  "For PointN of every dimension, addition, subtraction, scaling, scalar addition and scalar subtraction act coordinate by coordinate, equality holds exactly when all coordinates are equal, the default is the zero vector, axis(i) and iteration return the coordinates in the order given to the constructor, and squared_length is the sum of the squared coordinates.",
  ["inputs","configurations"],"all coordinate values, all dimensions",
  "There are no tests of PointN beyond its incidental use in 2D and 3D.",
  [PN,PT],[("Add, Sub, Mul, PartialEq, Default, IntoIterator, Point impls",PN)],["operators of PointN"])
p("C19","Operations are pure functions of their arguments",
  "No operation of the library keeps or consults state outside its arguments: there is no mutable or interior-mutable global, no interior mutability inside the public types, and no input/output or foreign call, so equal calls give equal results in any order and from any thread. Operations that take a curve by shared reference leave it unchanged.",
  ["schedules","histories","programs"],"every sequence and interleaving of calls",
  "Tests call each operation in one fixed order from one thread.",
  ["src/*.rs"],[("&self receivers, absence of statics and cells","src/*.rs")],["repeated calls"])
p("C20","Linearity and degeneracy predicates mean what they say",
  "A quadratic or cubic curve is reported linear for a tolerance exactly when its end points are distinct and every inner control point is within the tolerance of the segment between them; a line segment always is. A quadratic curve is reported to be a point exactly when end and inner control point are within the tolerance of the start; a cubic exactly when end and first inner control point are within the tolerance of the start and the second inner control point is within the tolerance of the end (tolerance inclusive in all cases, up to rounding).",
  ["inputs"],"all control points, all non-negative tolerances, all dimensions",
  "No test calls is_linear or is_a_point.",[Q,C,S],[("is_linear, are_points_colinear, is_a_point",Q),("same",C),("BezierSegment::is_linear",S)],["return values"])
p("C21","Constructors, accessors and conversions are lossless",
  "The control points given to a constructor are returned unchanged and in order by the control-point accessors and iterators of every curve type, mutable iteration over a generic Bezier curve visits each control point exactly once in order and writes through, and the baseline of a curve is the segment from its first to its last control point. Converting a segment, quadratic or cubic into the segment enum preserves the curve, and start, end and baseline of the enum are those of the curve inside.",
  ["inputs","configurations"],"all control points, all curve types, all N, all dimensions",
  "Tests build curves with struct literals and never read the control points back.",
  [L,Q,C,B,S],[("new, control_points, into_iter, baseline, start, end, From",L+", "+Q+", "+C+", "+B+", "+S)],["return values"])
p("C22","Coordinates are treated alike and independently in any dimension",
  "For any user-supplied Point type, coordinate k of an evaluated point, of a split or derivative control point, and of the bounding box depends only on coordinate k of the control points (and on t), by the same formula for every k and every dimension; the bounding box has exactly one interval per dimension.",
  ["configurations","inputs","programs"],"all dimensions, all Point implementations, all control points",
  "All tests use PointN in 2D (one in 3D); a fixed-dimension or axis-mixing slip in other dimensions is invisible.",
  [L,Q,C,B,BS,PT],[("the Point trait is the only interface to points",PT)],["coordinates of results"])
p("C23","Evaluation is an affine combination, convex inside the domain",
  "Every evaluation and every split control point of a Bezier curve is a combination of the control points whose weights sum to one for every t (so it commutes with translations and affine maps) and are non-negative for t in [0,1] (so it stays in the convex hull of the control points); derivative control points are combinations with weights summing to zero. The same holds for B-spline evaluation with t in the knot domain.",
  ["inputs","configurations"],"all control points, all t, all numbers of control points, all dimensions",
  "No test checks weights; comparisons on one curve cannot show that weights sum to one for all t.",
  [L,Q,C,B,BS],[("interpolation steps a*(1-t)+b*t and a+(b-a)*t",B)],["eval, split, derivative"])
p("C24","End parameters reproduce the end control points exactly",
  "For finite control points whose differences are finite, direct evaluation of quadratic, cubic and generic Bezier curves at t = 0 and t = 1 and evaluation of a clamped B-spline at the two ends of its domain return the first and last control point exactly (equal floating-point values, no tolerance); De Casteljau and line evaluation do so at t = 0.",
  ["inputs","configurations"],"all finite control points, all N, all clamped knot vectors, all dimensions",
  "eval_endpoints uses a squared-length tolerance on one curve; the B-spline tests check exact equality for single curves only.",
  [L,Q,C,B,BS],[("eval",B),("eval",Q),("eval",C),("de_boor_iterative",BS)],["eval at the end parameters"])
p("C25","De Casteljau evaluation stays accurate under rounding",
  "For every curve and t in [0,1] the floating-point result of De Casteljau evaluation differs from the exact value by at most a small multiple of machine epsilon times the largest control-point coordinate.",
  ["inputs"],"all control points and t",
  "Rounding behaviour is only observed for one curve per type.",[Q,C,B],[("eval_casteljau",C)])
p("C26","Arc length converges to the true arc length",
  "As the step count grows, arclen converges to the arc length of the curve from below, with error falling quadratically for smooth curves.",
  ["inputs"],"all curves and step counts","One circle approximation is checked at one step count.",[Q,C,B,BS],[("arclen",C)])
p("C27","Curve distance approximates the true minimum closely",
  "The distance reported for a curve exceeds the true minimum distance by no more than the curve's variation over a 1/4096 parameter step.",
  ["inputs"],"all curves and points","Only an inequality between two far-apart points is tested.",[Q,C,B],[("distance_to_point",C)])
p("C28","Curves are equal exactly when all their control points are equal",
  "Two lines, quadratics, cubics or segment enums compare equal exactly when they are of the same kind and all corresponding control points are equal coordinate by coordinate; a NaN coordinate equals nothing, and != is the negation of ==. A clone of a curve or B-spline carries the same control points and knots bit for bit and evaluates to the same values.",
  ["inputs","configurations"],"all pairs of curves, all coordinates including NaN, all dimensions, all sizes",
  "Only eval results are compared in the tests, never curves with one another; no test clones a curve.",
  [L,Q,C,B,S,BS,PN],[("PartialEq and Clone of the curve types",L+", "+Q+", "+C+", "+B+", "+S+", "+BS),("PartialEq for PointN",PN)],["==, !=, clone"])
p("C29","An axis the points do not have is rejected, never read",
  "Asking a point, a line, a quadratic or a cubic curve for the coordinate (or, for curves with dd, the derivative coordinate) of an axis index that is not below the dimension of the points panics for every index and every parameter. It never returns a number, such as the coordinate of another axis.",
  ["inputs","configurations"],"all axis indices >= dimension up to usize::MAX, all control points, all t, all dimensions",
  "No test passes an axis index at all.",
  [L,Q,C,PN,PT],[("PointN::axis",PN),("axis",L),("axis, dd",Q),("axis, dd",C)],["axis(t, i), dd(t, i), Point::axis(i)"])
p("C30","Every B-spline that exists has a valid, non-decreasing knot vector",
  "A B-spline can only come from the checking constructor, from the derivative of a B-spline or from a clone: its fields cannot be reached from outside the crate and no public operation changes a B-spline in place. The knots of every constructed spline and of every derivative spline are non-decreasing, and there are control points + degree + 1 of them.",
  ["programs","histories"],"every program using the public interface, every sequence of operations, all knot vectors",
  "A test cannot show that no other program can build or change a spline past the constructor's checks.",
  [BS],[("private fields of BSpline",BS),("BSpline::new",BS),("BSpline::derivative",BS)],["knots() of any reachable B-spline"])
p("C31","B-splines have local control and the smoothness their knots promise",
  "For every constructed B-spline with finite knots and knot differences, control point j influences the curve only for parameters in [knot[j], knot[j+D+1]]. At a knot of multiplicity m <= D inside the domain the value and all derivatives up to order D - m agree from both sides, and the value at every knot (and at both ends of the domain) is the limit from inside the domain.",
  ["inputs","configurations"],"all such knot vectors, all control points, all degrees, every knot",
  "Tests only check is_ok() in the interior; a jump or a kink at a knot, or a far-reaching control point, is never looked for.",
  [BS],[("de_boor_iterative",BS),("knot_span_start_for_t*",BS)],["Ok value of eval around a knot"])
p("C32","Equivalent descriptions of a curve give the same curve",
  "Evaluating a Bezier curve (line, quadratic, cubic, generic, enum) with reversed control points at 1 - t gives the value of the original at t, and splitting it gives the reversed parts in exchanged order. A B-spline with reversed control points and mirrored knots, and one whose knots and parameter are both stretched by a positive factor and moved, has the value of the original (away from jumps for mirroring), up to rounding, for finite knots and knot differences.",
  ["inputs","configurations"],"all control points, all t, all knot vectors, all factors a > 0 and offsets, all degrees and sizes",
  "No test compares two descriptions of one B-spline, and direction is only ever tested forwards.",
  [L,Q,C,B,S,BS],[("eval, split",L+", "+Q+", "+C+", "+B+", "+S),("de_boor_iterative, knot_span_start_for_t*",BS)],["eval and split of both descriptions"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        assert x["statement"].count(". ")<=3,x["id"]
        f.write(json.dumps(x)+"\n")
print(len(P))
