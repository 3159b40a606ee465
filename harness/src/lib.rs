//! Entry points for the analysis: every function hands symbolic inputs to
//! one operation of the public API of `stroke` and returns what comes out, as plain
//! numbers.  The crate is only ever type-checked and lowered to MIR; it is
//! never executed.  It uses nothing but the public API.
#![no_std]
#![allow(incomplete_features, clippy::all)]
#![feature(generic_const_exprs)]

use core::ops::{Add, Mul, Sub};
use stroke::bezier_segment::BezierSegment;
use stroke::bspline::BSplineError;
use stroke::{BSpline, Bezier, CubicBezier, LineSegment, Point, PointN, QuadraticBezier, Spline};

pub trait Mk<const D: usize>: Point<Scalar = f64> {
    fn mk(a: [f64; D]) -> Self;
    fn out(self) -> [f64; D] {
        let mut r = [0.0; D];
        let mut i = 0;
        while i < D {
            r[i] = self.axis(i);
            i += 1;
        }
        r
    }
}
impl<const D: usize> Mk<D> for PointN<f64, D> {
    fn mk(a: [f64; D]) -> Self { PointN::new(a) }
}

/// A user-defined point type: three coordinates, stored in another order, not a PointN.
#[derive(Clone, Copy)]
pub struct UserPoint { z: f64, x: f64, y: f64 }
impl Default for UserPoint { fn default() -> Self { UserPoint { x: 0.0, y: 0.0, z: 0.0 } } }
impl PartialEq for UserPoint { fn eq(&self, o: &Self) -> bool { self.x == o.x && self.y == o.y && self.z == o.z } }
impl Add for UserPoint { type Output = Self; fn add(self, o: Self) -> Self { UserPoint { x: self.x + o.x, y: self.y + o.y, z: self.z + o.z } } }
impl Sub for UserPoint { type Output = Self; fn sub(self, o: Self) -> Self { UserPoint { x: self.x - o.x, y: self.y - o.y, z: self.z - o.z } } }
impl Mul<f64> for UserPoint { type Output = Self; fn mul(self, o: f64) -> Self { UserPoint { x: self.x * o, y: self.y * o, z: self.z * o } } }
impl IntoIterator for UserPoint {
    type Item = f64;
    type IntoIter = core::array::IntoIter<f64, 3>;
    fn into_iter(self) -> Self::IntoIter { IntoIterator::into_iter([self.x, self.y, self.z]) }
}
impl Point for UserPoint {
    type Scalar = f64;
    const DIM: usize = 3;
    fn axis(&self, k: usize) -> f64 { match k { 0 => self.x, 1 => self.y, 2 => self.z, _ => panic!("axis out of range") } }
    fn squared_length(&self) -> f64 { self.x * self.x + self.y * self.y + self.z * self.z }
}
impl Mk<3> for UserPoint { fn mk(a: [f64; 3]) -> Self { UserPoint { x: a[0], y: a[1], z: a[2] } } }

type Ptn<const D: usize> = [f64; D];


fn mks<P: Mk<D>, const D: usize, const N: usize>(c: [Ptn<D>; N]) -> [P; N] {
    let mut r = [P::default(); N];
    let mut i = 0;
    while i < N { r[i] = P::mk(c[i]); i += 1; }
    r
}
fn outs<P: Mk<D>, const D: usize, const N: usize>(c: [P; N]) -> [Ptn<D>; N] {
    let mut r = [[0.0; D]; N];
    let mut i = 0;
    while i < N { r[i] = c[i].out(); i += 1; }
    r
}
fn line_cps<P: Mk<D>, const D: usize>(l: LineSegment<P>) -> [Ptn<D>; 2] { let s = BezierSegment::from(l); [s.start().out(), s.end().out()] }

fn seg_kind<P: Point>(s: &BezierSegment<P>) -> usize { match s { BezierSegment::Linear(_) => 1, BezierSegment::Quadratic(_) => 2, BezierSegment::Cubic(_) => 3 } }
fn seg_cps<P: Mk<D>, const D: usize>(s: &BezierSegment<P>) -> (usize, [Ptn<D>; 4]) {
    let mut r = [[0.0; D]; 4];
    match s {
        BezierSegment::Linear(l) => { let c = line_cps(*l); r[0] = c[0]; r[1] = c[1]; }
        BezierSegment::Quadratic(q) => { let c = outs(q.control_points()); r[0] = c[0]; r[1] = c[1]; r[2] = c[2]; }
        BezierSegment::Cubic(q) => { r = outs(q.control_points()); }
    }
    (seg_kind(s), r)
}
fn err(e: BSplineError) -> usize {
    match e {
        BSplineError::TooFewControlPoints => 1,
        BSplineError::TooFewKnots => 2,
        BSplineError::TooManyKnots => 3,
        BSplineError::DecreasingKnots => 4,
        BSplineError::KnotDomainViolation => 5,
        BSplineError::EvaluationAlphaIsNaN => 6,
    }
}

macro_rules! points { ($m:ident, $p:ty, $d:expr) => { pub mod $m {
    use super::*;
    pub const D: usize = $d;
    pub type P = $p;
    type Pt = [f64; D];
    fn line(c: [Pt; 2]) -> LineSegment<P> { LineSegment::new(P::mk(c[0]), P::mk(c[1])) }
    fn quad(c: [Pt; 3]) -> QuadraticBezier<P> { QuadraticBezier::new(P::mk(c[0]), P::mk(c[1]), P::mk(c[2])) }
    fn cubic(c: [Pt; 4]) -> CubicBezier<P> { CubicBezier::new(P::mk(c[0]), P::mk(c[1]), P::mk(c[2]), P::mk(c[3])) }
// ---- line segments
pub fn line_eval(c: [Pt; 2], t: f64) -> Pt { line(c).eval(t).out() }
pub fn line_axis(c: [Pt; 2], t: f64, k: usize) -> f64 { line(c).axis(t, k) }
pub fn line_split(c: [Pt; 2], t: f64) -> ([Pt; 2], [Pt; 2]) { let (a, b) = line(c).split(t); (line_cps(a), line_cps(b)) }
pub fn line_deriv(c: [Pt; 2]) -> Pt { line(c).derivative().out() }
pub fn line_bbox(c: [Pt; 2]) -> (usize, [(f64, f64); D]) {
    let b = line(c).bounding_box();
    let mut r = [(0.0, 0.0); D];
    let mut i = 0;
    while i < b.len() { r[i] = b[i]; i += 1; }
    (b.len(), r)
}
pub fn line_dist(c: [Pt; 2], p: Pt) -> f64 { line(c).distance_to_point(P::mk(p)) }
/// (a == b, a != b)
pub fn line_eq(a: [Pt; 2], b: [Pt; 2]) -> (bool, bool) { (line(a) == line(b), line(a) != line(b)) }
/// one object compared with itself: (a == a, a != a)
pub fn line_same(a: [Pt; 2]) -> (bool, bool) { let x = line(a); (x == x, x != x) }
/// what is left in an object overwritten by clone_from
pub fn line_clone_from(c: [Pt; 2], o: [Pt; 2]) -> [Pt; 2] { let x = line(c); let mut y = line(o); y.clone_from(&x); line_cps(y) }
pub fn line_clone(c: [Pt; 2]) -> [Pt; 2] { let l = line(c); line_cps(Clone::clone(&l)) }
pub fn line_ends(c: [Pt; 2]) -> [Pt; 2] { line_cps(line(c)) }

// ---- quadratic curves
pub fn quad_eval(c: [Pt; 3], t: f64) -> Pt { quad(c).eval(t).out() }
pub fn quad_casteljau(c: [Pt; 3], t: f64) -> Pt { quad(c).eval_casteljau(t).out() }
pub fn quad_axis(c: [Pt; 3], t: f64, k: usize) -> f64 { quad(c).axis(t, k) }
pub fn quad_split(c: [Pt; 3], t: f64) -> ([Pt; 3], [Pt; 3]) { let (a, b) = quad(c).split(t); (outs(a.control_points()), outs(b.control_points())) }
pub fn quad_deriv(c: [Pt; 3]) -> [Pt; 2] { line_cps(quad(c).derivative()) }
pub fn quad_deriv_eval(c: [Pt; 3], t: f64) -> Pt { quad(c).derivative().eval(t).out() }
pub fn quad_deriv2(c: [Pt; 3]) -> Pt { quad(c).derivative().derivative().out() }
pub fn quad_dd(c: [Pt; 3], t: f64, k: usize) -> f64 { quad(c).dd(t, k) }
pub fn quad_bbox(c: [Pt; 3]) -> (usize, [(f64, f64); D]) {
    let b = quad(c).bounding_box();
    let mut r = [(0.0, 0.0); D];
    let mut i = 0;
    while i < b.len() { r[i] = b[i]; i += 1; }
    (b.len(), r)
}
pub fn quad_arclen(c: [Pt; 3], n: usize) -> f64 { quad(c).arclen(n) }
pub fn quad_dist(c: [Pt; 3], p: Pt) -> f64 { quad(c).distance_to_point(P::mk(p)) }
pub fn quad_is_linear(c: [Pt; 3], tol: f64) -> bool { quad(c).is_linear(tol) }
pub fn quad_is_point(c: [Pt; 3], tol: f64) -> bool { quad(c).is_a_point(tol) }
pub fn quad_eq(a: [Pt; 3], b: [Pt; 3]) -> (bool, bool) { (quad(a) == quad(b), quad(a) != quad(b)) }
/// one object compared with itself: (a == a, a != a)
pub fn quad_same(a: [Pt; 3]) -> (bool, bool) { let x = quad(a); (x == x, x != x) }
/// what is left in an object overwritten by clone_from
pub fn quad_clone_from(c: [Pt; 3], o: [Pt; 3]) -> [Pt; 3] { let x = quad(c); let mut y = quad(o); y.clone_from(&x); outs(y.control_points()) }
pub fn quad_clone(c: [Pt; 3]) -> [Pt; 3] { let q = quad(c); outs(Clone::clone(&q).control_points()) }
pub fn quad_cps(c: [Pt; 3]) -> [Pt; 3] { outs(quad(c).control_points()) }
pub fn quad_baseline(c: [Pt; 3]) -> [Pt; 2] { line_cps(quad(c).baseline()) }

// ---- cubic curves
pub fn cubic_eval(c: [Pt; 4], t: f64) -> Pt { cubic(c).eval(t).out() }
pub fn cubic_casteljau(c: [Pt; 4], t: f64) -> Pt { cubic(c).eval_casteljau(t).out() }
pub fn cubic_axis(c: [Pt; 4], t: f64, k: usize) -> f64 { cubic(c).axis(t, k) }
pub fn cubic_split(c: [Pt; 4], t: f64) -> ([Pt; 4], [Pt; 4]) { let (a, b) = cubic(c).split(t); (outs(a.control_points()), outs(b.control_points())) }
pub fn cubic_deriv(c: [Pt; 4]) -> [Pt; 3] { outs(cubic(c).derivative().control_points()) }
pub fn cubic_deriv_eval(c: [Pt; 4], t: f64) -> Pt { cubic(c).derivative().eval(t).out() }
pub fn cubic_deriv2(c: [Pt; 4]) -> [Pt; 2] { line_cps(cubic(c).derivative().derivative()) }
pub fn cubic_deriv3(c: [Pt; 4]) -> Pt { cubic(c).derivative().derivative().derivative().out() }
pub fn cubic_dd(c: [Pt; 4], t: f64, k: usize) -> f64 { cubic(c).dd(t, k) }
pub fn cubic_bbox(c: [Pt; 4]) -> (usize, [(f64, f64); D]) {
    let b = cubic(c).bounding_box();
    let mut r = [(0.0, 0.0); D];
    let mut i = 0;
    while i < b.len() { r[i] = b[i]; i += 1; }
    (b.len(), r)
}
pub fn cubic_arclen(c: [Pt; 4], n: usize) -> f64 { cubic(c).arclen(n) }
pub fn cubic_dist(c: [Pt; 4], p: Pt) -> f64 { cubic(c).distance_to_point(P::mk(p)) }
pub fn cubic_is_linear(c: [Pt; 4], tol: f64) -> bool { cubic(c).is_linear(tol) }
pub fn cubic_is_point(c: [Pt; 4], tol: f64) -> bool { cubic(c).is_a_point(tol) }
pub fn cubic_eq(a: [Pt; 4], b: [Pt; 4]) -> (bool, bool) { (cubic(a) == cubic(b), cubic(a) != cubic(b)) }
/// one object compared with itself: (a == a, a != a)
pub fn cubic_same(a: [Pt; 4]) -> (bool, bool) { let x = cubic(a); (x == x, x != x) }
/// what is left in an object overwritten by clone_from
pub fn cubic_clone_from(c: [Pt; 4], o: [Pt; 4]) -> [Pt; 4] { let x = cubic(c); let mut y = cubic(o); y.clone_from(&x); outs(y.control_points()) }
pub fn cubic_clone(c: [Pt; 4]) -> [Pt; 4] { let q = cubic(c); outs(Clone::clone(&q).control_points()) }
pub fn cubic_cps(c: [Pt; 4]) -> [Pt; 4] { outs(cubic(c).control_points()) }
pub fn cubic_baseline(c: [Pt; 4]) -> [Pt; 2] { line_cps(cubic(c).baseline()) }

    pub fn seg1_eval(c: [Pt; 2], t: f64) -> Pt { BezierSegment::from(line(c)).eval::<f64>(t).out() }
    pub fn seg1_split(c: [Pt; 2], t: f64) -> ((usize, [Pt; 4]), (usize, [Pt; 4])) { let (a, b) = BezierSegment::from(line(c)).split::<f64>(t); (seg_cps(&a), seg_cps(&b)) }
    pub fn seg1_start(c: [Pt; 2]) -> Pt { BezierSegment::from(line(c)).start().out() }
    pub fn seg1_end(c: [Pt; 2]) -> Pt { BezierSegment::from(line(c)).end().out() }
    pub fn seg1_baseline(c: [Pt; 2]) -> [Pt; 2] { line_cps(BezierSegment::from(line(c)).baseline()) }
    pub fn seg1_is_linear(c: [Pt; 2], tol: f64) -> bool { BezierSegment::from(line(c)).is_linear::<f64>(tol) }
    pub fn seg1_eval32(c: [Pt; 2], t: f64) -> Pt { BezierSegment::from(line(c)).eval::<f32>(t).out() }
    pub fn seg1_split32(c: [Pt; 2], t: f32) -> ((usize, [Pt; 4]), (usize, [Pt; 4])) { let (a, b) = BezierSegment::from(line(c)).split::<f32>(t); (seg_cps(&a), seg_cps(&b)) }
    pub fn seg1_is_linear32(c: [Pt; 2], tol: f32) -> bool { BezierSegment::from(line(c)).is_linear::<f32>(tol) }
    pub fn seg1_conv(c: [Pt; 2]) -> (usize, [Pt; 4]) { seg_cps(&BezierSegment::from(line(c))) }
    pub fn seg2_eval(c: [Pt; 3], t: f64) -> Pt { BezierSegment::from(quad(c)).eval::<f64>(t).out() }
    pub fn seg2_split(c: [Pt; 3], t: f64) -> ((usize, [Pt; 4]), (usize, [Pt; 4])) { let (a, b) = BezierSegment::from(quad(c)).split::<f64>(t); (seg_cps(&a), seg_cps(&b)) }
    pub fn seg2_start(c: [Pt; 3]) -> Pt { BezierSegment::from(quad(c)).start().out() }
    pub fn seg2_end(c: [Pt; 3]) -> Pt { BezierSegment::from(quad(c)).end().out() }
    pub fn seg2_baseline(c: [Pt; 3]) -> [Pt; 2] { line_cps(BezierSegment::from(quad(c)).baseline()) }
    pub fn seg2_is_linear(c: [Pt; 3], tol: f64) -> bool { BezierSegment::from(quad(c)).is_linear::<f64>(tol) }
    pub fn seg2_eval32(c: [Pt; 3], t: f64) -> Pt { BezierSegment::from(quad(c)).eval::<f32>(t).out() }
    pub fn seg2_split32(c: [Pt; 3], t: f32) -> ((usize, [Pt; 4]), (usize, [Pt; 4])) { let (a, b) = BezierSegment::from(quad(c)).split::<f32>(t); (seg_cps(&a), seg_cps(&b)) }
    pub fn seg2_is_linear32(c: [Pt; 3], tol: f32) -> bool { BezierSegment::from(quad(c)).is_linear::<f32>(tol) }
    pub fn seg2_conv(c: [Pt; 3]) -> (usize, [Pt; 4]) { seg_cps(&BezierSegment::from(quad(c))) }
    pub fn seg3_eval(c: [Pt; 4], t: f64) -> Pt { BezierSegment::from(cubic(c)).eval::<f64>(t).out() }
    pub fn seg3_split(c: [Pt; 4], t: f64) -> ((usize, [Pt; 4]), (usize, [Pt; 4])) { let (a, b) = BezierSegment::from(cubic(c)).split::<f64>(t); (seg_cps(&a), seg_cps(&b)) }
    pub fn seg3_start(c: [Pt; 4]) -> Pt { BezierSegment::from(cubic(c)).start().out() }
    pub fn seg3_end(c: [Pt; 4]) -> Pt { BezierSegment::from(cubic(c)).end().out() }
    pub fn seg3_baseline(c: [Pt; 4]) -> [Pt; 2] { line_cps(BezierSegment::from(cubic(c)).baseline()) }
    pub fn seg3_is_linear(c: [Pt; 4], tol: f64) -> bool { BezierSegment::from(cubic(c)).is_linear::<f64>(tol) }
    pub fn seg3_eval32(c: [Pt; 4], t: f64) -> Pt { BezierSegment::from(cubic(c)).eval::<f32>(t).out() }
    pub fn seg3_split32(c: [Pt; 4], t: f32) -> ((usize, [Pt; 4]), (usize, [Pt; 4])) { let (a, b) = BezierSegment::from(cubic(c)).split::<f32>(t); (seg_cps(&a), seg_cps(&b)) }
    pub fn seg3_is_linear32(c: [Pt; 4], tol: f32) -> bool { BezierSegment::from(cubic(c)).is_linear::<f32>(tol) }
    pub fn seg3_conv(c: [Pt; 4]) -> (usize, [Pt; 4]) { seg_cps(&BezierSegment::from(cubic(c))) }
    pub fn seg1_eq(a: [Pt; 2], b: [Pt; 2]) -> (bool, bool) { let (x, y) = (BezierSegment::from(line(a)), BezierSegment::from(line(b))); (x == y, x != y) }
    pub fn seg1_same(a: [Pt; 2]) -> (bool, bool) { let x = BezierSegment::from(line(a)); (x == x, x != x) }
    pub fn seg1_clone_from(c: [Pt; 2], o: [Pt; 4], k: usize) -> (usize, [Pt; 4]) {
        let x = BezierSegment::from(line(c));
        let mut y = match k { 1 => BezierSegment::from(line([o[0], o[1]])), 2 => BezierSegment::from(quad([o[0], o[1], o[2]])), _ => BezierSegment::from(cubic(o)) };
        y.clone_from(&x);
        seg_cps(&y)
    }
    pub fn seg1_clone(c: [Pt; 2]) -> (usize, [Pt; 4]) { let s = BezierSegment::from(line(c)); seg_cps(&Clone::clone(&s)) }
    pub fn seg2_eq(a: [Pt; 3], b: [Pt; 3]) -> (bool, bool) { let (x, y) = (BezierSegment::from(quad(a)), BezierSegment::from(quad(b))); (x == y, x != y) }
    pub fn seg2_same(a: [Pt; 3]) -> (bool, bool) { let x = BezierSegment::from(quad(a)); (x == x, x != x) }
    pub fn seg2_clone_from(c: [Pt; 3], o: [Pt; 4], k: usize) -> (usize, [Pt; 4]) {
        let x = BezierSegment::from(quad(c));
        let mut y = match k { 1 => BezierSegment::from(line([o[0], o[1]])), 2 => BezierSegment::from(quad([o[0], o[1], o[2]])), _ => BezierSegment::from(cubic(o)) };
        y.clone_from(&x);
        seg_cps(&y)
    }
    pub fn seg2_clone(c: [Pt; 3]) -> (usize, [Pt; 4]) { let s = BezierSegment::from(quad(c)); seg_cps(&Clone::clone(&s)) }
    pub fn seg3_eq(a: [Pt; 4], b: [Pt; 4]) -> (bool, bool) { let (x, y) = (BezierSegment::from(cubic(a)), BezierSegment::from(cubic(b))); (x == y, x != y) }
    pub fn seg3_same(a: [Pt; 4]) -> (bool, bool) { let x = BezierSegment::from(cubic(a)); (x == x, x != x) }
    pub fn seg3_clone_from(c: [Pt; 4], o: [Pt; 4], k: usize) -> (usize, [Pt; 4]) {
        let x = BezierSegment::from(cubic(c));
        let mut y = match k { 1 => BezierSegment::from(line([o[0], o[1]])), 2 => BezierSegment::from(quad([o[0], o[1], o[2]])), _ => BezierSegment::from(cubic(o)) };
        y.clone_from(&x);
        seg_cps(&y)
    }
    pub fn seg3_clone(c: [Pt; 4]) -> (usize, [Pt; 4]) { let s = BezierSegment::from(cubic(c)); seg_cps(&Clone::clone(&s)) }
    /// (equal, unequal) for each pair of different kinds: line-quadratic, line-cubic, quadratic-cubic and the other way round
    pub fn seg_kinds(a: [Pt; 2], b: [Pt; 3], c: [Pt; 4]) -> [(bool, bool); 6] {
        let (x, y, z) = (BezierSegment::from(line(a)), BezierSegment::from(quad(b)), BezierSegment::from(cubic(c)));
        [(x == y, x != y), (x == z, x != z), (y == z, y != z), (y == x, y != x), (z == x, z != x), (z == y, z != y)]
    }
} } }

macro_rules! beziers { ($m:ident, $pm:ident, $n:expr) => { pub mod $m {
    use super::*;
    use super::$pm::{D, P};
    const N: usize = $n;
    type Pt = [f64; D];
    fn bez(c: [Pt; N]) -> Bezier<P, N> { Bezier::new(mks(c)) }
// ---- generic curves
pub fn eval(c: [Pt; N], t: f64) -> Pt { bez(c).eval(t).out() }
pub fn spline_eval(c: [Pt; N], t: f64) -> Pt { Spline::eval(&bez(c), t).out() }
pub fn split(c: [Pt; N], t: f64) -> ([Pt; N], [Pt; N]) { let (a, b) = bez(c).split(t); (outs(a.control_points()), outs(b.control_points())) }
pub fn arclen(c: [Pt; N], n: usize) -> f64 { bez(c).arclen(n) }
pub fn dist(c: [Pt; N], p: Pt) -> f64 { bez(c).distance_to_point(P::mk(p)) }
pub fn cps(c: [Pt; N]) -> [Pt; N] { outs(bez(c).control_points()) }
pub fn clone(c: [Pt; N]) -> [Pt; N] { let b = bez(c); outs(Clone::clone(&b).control_points()) }
pub fn clone_from(c: [Pt; N], o: [Pt; N]) -> [Pt; N] { let b = bez(c); let mut x = bez(o); x.clone_from(&b); outs(x.control_points()) }
pub fn iter(c: [Pt; N]) -> (usize, [Pt; N]) {
    let mut r = [[0.0; D]; N];
    let mut n = 0;
    for p in bez(c) { r[n] = p.out(); n += 1; }
    (n, r)
}
/// writes w[i] through the i-th item of the mutable iterator; also reports what each item held
pub fn iter_mut(c: [Pt; N], w: [Pt; N]) -> (usize, [Pt; N], [Pt; N]) {
    let mut b = bez(c);
    let mut seen = [[0.0; D]; N];
    let mut n = 0;
    for p in &mut b { seen[n] = p.out(); *p = P::mk(w[n]); n += 1; }
    (n, seen, outs(b.control_points()))
}

} } }
macro_rules! beziers_d { ($m:ident, $pm:ident, $n:expr) => { pub mod $m {
    use super::*;
    use super::$pm::{D, P};
    const N: usize = $n;
    type Pt = [f64; D];
    fn bez(c: [Pt; N]) -> Bezier<P, N> { Bezier::new(mks(c)) }
pub fn deriv(c: [Pt; N]) -> (usize, [Pt; N]) {
    let d = bez(c).derivative().control_points();
    let mut r = [[0.0; D]; N];
    let mut i = 0;
    while i < d.len() { r[i] = d[i].out(); i += 1; }
    (d.len(), r)
}
pub fn deriv_eval(c: [Pt; N], t: f64) -> Pt { bez(c).derivative().eval(t).out() }
} } }

macro_rules! bsplines { ($m:ident, $pm:ident, $k:expr, $c:expr, $g:expr) => { pub mod $m {
    use super::*;
    use super::$pm::{D, P};
    const K: usize = $k;
    const C: usize = $c;
    const G: usize = $g;
    type Pt = [f64; D];
/// (0 or error code, stored knots, stored control points)
pub fn new(k: [f64; K], c: [Pt; C]) -> (usize, usize, [f64; K], usize, [Pt; C]) {
    let mut ks = [0.0; K];
    let mut cs = [[0.0; D]; C];
    match BSpline::<P, K, C, G>::new(k, mks(c)) {
        Err(e) => (err(e), 0, ks, 0, cs),
        Ok(b) => {
            let mut n = 0;
            for x in b.knots() { ks[n] = *x; n += 1; }
            let mut m = 0;
            for x in b.control_points() { cs[m] = x.out(); m += 1; }
            (0, n, ks, m, cs)
        }
    }
}
/// (0 or 100 + constructor error, knot domain)
pub fn domain(k: [f64; K], c: [Pt; C]) -> (usize, f64, f64) {
    match BSpline::<P, K, C, G>::new(k, mks(c)) {
        Err(e) => (100 + err(e), 0.0, 0.0),
        Ok(b) => { let (x, y) = b.knot_domain(); (0, x, y) }
    }
}
/// (0, 100 + constructor error or evaluation error, value)
pub fn eval(k: [f64; K], c: [Pt; C], t: f64) -> (usize, Pt) {
    match BSpline::<P, K, C, G>::new(k, mks(c)) {
        Err(e) => (100 + err(e), [0.0; D]),
        Ok(b) => match b.eval(t) { Ok(p) => (0, p.out()), Err(e) => (err(e), [0.0; D]) },
    }
}
/// a clone: stored knots and control points; knot domain of clone and original; values of clone and original
pub fn clone(k: [f64; K], c: [Pt; C], t: f64) -> (usize, usize, [f64; K], usize, [Pt; C], [f64; 4], [(usize, Pt); 2]) {
    let mut ks = [0.0; K];
    let mut cs = [[0.0; D]; C];
    match BSpline::<P, K, C, G>::new(k, mks(c)) {
        Err(e) => (100 + err(e), 0, ks, 0, cs, [0.0; 4], [(0, [0.0; D]); 2]),
        Ok(b) => {
            let x = b.clone();
            let mut n = 0;
            for v in x.knots() { ks[n] = *v; n += 1; }
            let mut m = 0;
            for v in x.control_points() { cs[m] = v.out(); m += 1; }
            let ((a0, a1), (b0, b1)) = (x.knot_domain(), b.knot_domain());
            let ev = |s: &BSpline<P, K, C, G>| match s.eval(t) { Ok(p) => (0, p.out()), Err(e) => (err(e), [0.0; D]) };
            (0, n, ks, m, cs, [a0, a1, b0, b1], [ev(&x), ev(&b)])
        }
    }
}
/// an existing spline overwritten by clone_from: stored knots and control points; knot domain of clone and original; values of clone and original
pub fn clone_from(k: [f64; K], c: [Pt; C], t: f64, k2: [f64; K], c2: [Pt; C]) -> (usize, usize, [f64; K], usize, [Pt; C], [f64; 4], [(usize, Pt); 2]) {
    let mut ks = [0.0; K];
    let mut cs = [[0.0; D]; C];
    match (BSpline::<P, K, C, G>::new(k, mks(c)), BSpline::<P, K, C, G>::new(k2, mks(c2))) {
        (Err(e), _) | (_, Err(e)) => (100 + err(e), 0, ks, 0, cs, [0.0; 4], [(0, [0.0; D]); 2]),
        (Ok(b), Ok(mut x)) => {
            x.clone_from(&b);
            let mut n = 0;
            for v in x.knots() { ks[n] = *v; n += 1; }
            let mut m = 0;
            for v in x.control_points() { cs[m] = v.out(); m += 1; }
            let ((a0, a1), (b0, b1)) = (x.knot_domain(), b.knot_domain());
            let ev = |s: &BSpline<P, K, C, G>| match s.eval(t) { Ok(p) => (0, p.out()), Err(e) => (err(e), [0.0; D]) };
            (0, n, ks, m, cs, [a0, a1, b0, b1], [ev(&x), ev(&b)])
        }
    }
}
pub fn arclen(k: [f64; K], c: [Pt; C], n: usize) -> (usize, f64) {
    match BSpline::<P, K, C, G>::new(k, mks(c)) {
        Err(e) => (100 + err(e), 0.0),
        Ok(b) => (0, b.arclen(n)),
    }
}
} } }
macro_rules! bsplines_new { ($m:ident, $pm:ident, $k:expr, $c:expr, $g:expr) => { pub mod $m {
    use super::*;
    use super::$pm::{D, P};
    const K: usize = $k;
    const C: usize = $c;
    const G: usize = $g;
    type Pt = [f64; D];
/// (0 or error code, stored knots, stored control points)
pub fn new(k: [f64; K], c: [Pt; C]) -> (usize, usize, [f64; K], usize, [Pt; C]) {
    let mut ks = [0.0; K];
    let mut cs = [[0.0; D]; C];
    match BSpline::<P, K, C, G>::new(k, mks(c)) {
        Err(e) => (err(e), 0, ks, 0, cs),
        Ok(b) => {
            let mut n = 0;
            for x in b.knots() { ks[n] = *x; n += 1; }
            let mut m = 0;
            for x in b.control_points() { cs[m] = x.out(); m += 1; }
            (0, n, ks, m, cs)
        }
    }
}
} } }
macro_rules! bsplines_d { ($m:ident, $pm:ident, $k:expr, $c:expr, $g:expr) => { pub mod $m {
    use super::*;
    use super::$pm::{D, P};
    const K: usize = $k;
    const C: usize = $c;
    const G: usize = $g;
    type Pt = [f64; D];
    /// the derivative's knot domain and control points
    pub fn deriv(k: [f64; K], c: [Pt; C]) -> (usize, f64, f64, usize, [Pt; C]) {
        let mut cs = [[0.0; D]; C];
        match BSpline::<P, K, C, G>::new(k, mks(c)) {
            Err(e) => (100 + err(e), 0.0, 0.0, 0, cs),
            Ok(b) => {
                let d = b.derivative();
                let (x, y) = d.knot_domain();
                let mut m = 0;
                for p in d.control_points() { cs[m] = p.out(); m += 1; }
                (0, x, y, m, cs)
            }
        }
    }
    /// the derivative's knots
    pub fn deriv_knots(k: [f64; K], c: [Pt; C]) -> (usize, usize, [f64; K]) {
        let mut ks = [0.0; K];
        match BSpline::<P, K, C, G>::new(k, mks(c)) {
            Err(e) => (100 + err(e), 0, ks),
            Ok(b) => {
                let mut n = 0;
                for x in b.derivative().knots() { ks[n] = *x; n += 1; }
                (0, n, ks)
            }
        }
    }
    pub fn deriv_eval(k: [f64; K], c: [Pt; C], t: f64) -> (usize, Pt) {
        match BSpline::<P, K, C, G>::new(k, mks(c)) {
            Err(e) => (100 + err(e), [0.0; D]),
            Ok(b) => match b.derivative().eval(t) { Ok(p) => (0, p.out()), Err(e) => (err(e), [0.0; D]) },
        }
    }
} } }

macro_rules! beziers_dd { ($m:ident, $pm:ident, $n:expr) => { pub mod $m {
    use super::*;
    use super::$pm::{D, P};
    const N: usize = $n;
    type Pt = [f64; D];
    pub fn deriv2_eval(c: [Pt; N], t: f64) -> Pt { Bezier::<P, N>::new(mks(c)).derivative().derivative().eval(t).out() }
} } }
macro_rules! bsplines_dd { ($m:ident, $pm:ident, $k:expr, $c:expr, $g:expr) => { pub mod $m {
    use super::*;
    use super::$pm::{D, P};
    const K: usize = $k;
    const C: usize = $c;
    const G: usize = $g;
    type Pt = [f64; D];
    pub fn deriv2_eval(k: [f64; K], c: [Pt; C], t: f64) -> (usize, Pt) {
        match BSpline::<P, K, C, G>::new(k, mks(c)) {
            Err(e) => (100 + err(e), [0.0; D]),
            Ok(b) => match b.derivative().derivative().eval(t) { Ok(p) => (0, p.out()), Err(e) => (err(e), [0.0; D]) },
        }
    }
} } }

macro_rules! pointn { ($m:ident, $d:expr) => { pub mod $m {
    use super::*;
    const D: usize = $d;
    type Pt = [f64; D];
// ---- PointN as a vector space
pub fn add(a: Pt, b: Pt) -> Pt { (PointN::new(a) + PointN::new(b)).out() }
pub fn sub(a: Pt, b: Pt) -> Pt { (PointN::new(a) - PointN::new(b)).out() }
pub fn mul(a: Pt, s: f64) -> Pt { (PointN::new(a) * s).out() }
pub fn adds(a: Pt, s: f64) -> Pt { (PointN::new(a) + s).out() }
pub fn subs(a: Pt, s: f64) -> Pt { (PointN::new(a) - s).out() }
pub fn eq(a: Pt, b: Pt) -> bool { PointN::new(a) == PointN::new(b) }
/// one object compared with itself, and with itself behind two references: (a == a, a != a)
pub fn same(a: Pt) -> (bool, bool) { let x = PointN::new(a); let (r, s) = (&x, &x); (*r == *s, *r != *s) }
pub fn clone_from(a: Pt, o: Pt) -> Pt { let x = PointN::new(a); let mut y = PointN::new(o); y.clone_from(&x); y.out() }
pub fn clone(a: Pt) -> Pt { let x = PointN::new(a); Clone::clone(&x).out() }
pub fn ne(a: Pt, b: Pt) -> bool { PointN::new(a) != PointN::new(b) }
pub fn default() -> Pt { PointN::<f64, D>::default().out() }
pub fn axis(a: Pt, k: usize) -> f64 { PointN::new(a).axis(k) }
pub fn dim() -> usize { <PointN<f64, D> as Point>::DIM }
pub fn sqlen(a: Pt) -> f64 { PointN::new(a).squared_length() }
pub fn iter(a: Pt) -> (usize, Pt) {
    let mut r = [0.0; D];
    let mut n = 0;
    for x in PointN::new(a) { r[n] = x; n += 1; }
    (n, r)
}
pub fn iter_mut(a: Pt, w: Pt) -> (usize, Pt, Pt) {
    let mut p = PointN::new(a);
    let mut seen = [0.0; D];
    let mut n = 0;
    for x in &mut p { seen[n] = *x; *x = w[n]; n += 1; }
    (n, seen, p.out())
}
/// integer coordinates: the operators are generic over the component type
pub fn int_ops(a: [i64; D], b: [i64; D], s: i64) -> ([i64; D], [i64; D], [i64; D], bool) {
    let (p, q) = (PointN::new(a), PointN::new(b));
    let mut r = ([0; D], [0; D], [0; D], p == q);
    let mut i = 0;
    for x in p + q { r.0[i] = x; i += 1; }
    i = 0;
    for x in p - q { r.1[i] = x; i += 1; }
    i = 0;
    for x in p * s { r.2[i] = x; i += 1; }
    r
}
} } }

// ---- instances
points!(p1, PointN<f64, 1>, 1);
points!(p2, PointN<f64, 2>, 2);
points!(p3, PointN<f64, 3>, 3);
points!(p4, PointN<f64, 4>, 4);
points!(u3, UserPoint, 3);
points!(p5, PointN<f64, 5>, 5);
points!(p8, PointN<f64, 8>, 8);
points!(p16, PointN<f64, 16>, 16);
pointn!(v1, 1);
pointn!(v2, 2);
pointn!(v3, 3);
pointn!(v4, 4);
pointn!(v5, 5);
pointn!(v6, 6);
pointn!(v7, 7);
pointn!(v8, 8);
pointn!(v9, 9);
pointn!(v10, 10);
pointn!(v11, 11);
pointn!(v12, 12);
pointn!(v13, 13);
pointn!(v14, 14);
pointn!(v15, 15);
pointn!(v16, 16);
pointn!(v17, 17);
pointn!(v20, 20);
pointn!(v24, 24);
pointn!(v25, 25);
pointn!(v31, 31);
pointn!(v32, 32);
pointn!(v33, 33);
pointn!(v300, 300);
beziers!(p1_b1, p1, 1);
beziers!(p1_b2, p1, 2);
beziers_d!(p1_bd2, p1, 2);
beziers!(p1_b3, p1, 3);
beziers_d!(p1_bd3, p1, 3);
beziers!(p1_b4, p1, 4);
beziers_d!(p1_bd4, p1, 4);
beziers!(p1_b5, p1, 5);
beziers_d!(p1_bd5, p1, 5);
beziers!(p1_b6, p1, 6);
beziers_d!(p1_bd6, p1, 6);
beziers!(p1_b7, p1, 7);
beziers_d!(p1_bd7, p1, 7);
beziers!(p1_b8, p1, 8);
beziers_d!(p1_bd8, p1, 8);
beziers!(p1_b9, p1, 9);
beziers_d!(p1_bd9, p1, 9);
beziers!(p1_b10, p1, 10);
beziers_d!(p1_bd10, p1, 10);
beziers!(p1_b11, p1, 11);
beziers_d!(p1_bd11, p1, 11);
beziers!(p1_b12, p1, 12);
beziers_d!(p1_bd12, p1, 12);
beziers!(p1_b13, p1, 13);
beziers_d!(p1_bd13, p1, 13);
beziers!(p1_b14, p1, 14);
beziers_d!(p1_bd14, p1, 14);
beziers!(p1_b15, p1, 15);
beziers_d!(p1_bd15, p1, 15);
beziers!(p1_b16, p1, 16);
beziers_d!(p1_bd16, p1, 16);
beziers!(p1_b17, p1, 17);
beziers_d!(p1_bd17, p1, 17);
beziers!(p1_b18, p1, 18);
beziers_d!(p1_bd18, p1, 18);
beziers!(p1_b19, p1, 19);
beziers_d!(p1_bd19, p1, 19);
beziers!(p1_b20, p1, 20);
beziers_d!(p1_bd20, p1, 20);
beziers!(p1_b21, p1, 21);
beziers_d!(p1_bd21, p1, 21);
beziers!(p1_b22, p1, 22);
beziers_d!(p1_bd22, p1, 22);
beziers!(p1_b24, p1, 24);
beziers_d!(p1_bd24, p1, 24);
beziers!(p1_b25, p1, 25);
beziers_d!(p1_bd25, p1, 25);
beziers!(p1_b31, p1, 31);
beziers_d!(p1_bd31, p1, 31);
beziers!(p1_b32, p1, 32);
beziers_d!(p1_bd32, p1, 32);
beziers!(p1_b33, p1, 33);
beziers_d!(p1_bd33, p1, 33);
beziers!(p1_b34, p1, 34);
beziers_d!(p1_bd34, p1, 34);
beziers!(p1_b48, p1, 48);
beziers_d!(p1_bd48, p1, 48);
beziers!(p1_b63, p1, 63);
beziers_d!(p1_bd63, p1, 63);
beziers!(p1_b64, p1, 64);
beziers_d!(p1_bd64, p1, 64);
beziers!(p1_b65, p1, 65);
beziers_d!(p1_bd65, p1, 65);
beziers!(p1_h300, p1, 300);
beziers_d!(p1_hd300, p1, 300);
beziers!(p2_h300, p2, 300);
beziers_d!(p2_hd300, p2, 300);
beziers!(p2_b1, p2, 1);
beziers!(p2_b2, p2, 2);
beziers_d!(p2_bd2, p2, 2);
beziers!(p2_b3, p2, 3);
beziers_d!(p2_bd3, p2, 3);
beziers!(p2_b4, p2, 4);
beziers_d!(p2_bd4, p2, 4);
beziers!(p2_b5, p2, 5);
beziers_d!(p2_bd5, p2, 5);
beziers!(p2_b6, p2, 6);
beziers_d!(p2_bd6, p2, 6);
beziers!(p2_b7, p2, 7);
beziers_d!(p2_bd7, p2, 7);
beziers!(p2_b8, p2, 8);
beziers_d!(p2_bd8, p2, 8);
beziers!(p3_b1, p3, 1);
beziers!(p3_b2, p3, 2);
beziers_d!(p3_bd2, p3, 2);
beziers!(p3_b3, p3, 3);
beziers_d!(p3_bd3, p3, 3);
beziers!(p3_b4, p3, 4);
beziers_d!(p3_bd4, p3, 4);
beziers!(p3_b5, p3, 5);
beziers_d!(p3_bd5, p3, 5);
beziers!(p4_b4, p4, 4);
beziers_d!(p4_bd4, p4, 4);
beziers!(p5_b3, p5, 3);
beziers_d!(p5_bd3, p5, 3);
beziers!(p5_b4, p5, 4);
beziers_d!(p5_bd4, p5, 4);
beziers!(p8_b3, p8, 3);
beziers_d!(p8_bd3, p8, 3);
beziers!(p8_b4, p8, 4);
beziers_d!(p8_bd4, p8, 4);
beziers!(u3_b1, u3, 1);
beziers!(u3_b2, u3, 2);
beziers_d!(u3_bd2, u3, 2);
beziers!(u3_b3, u3, 3);
beziers_d!(u3_bd3, u3, 3);
beziers!(u3_b4, u3, 4);
beziers_d!(u3_bd4, u3, 4);
beziers!(u3_b5, u3, 5);
beziers_d!(u3_bd5, u3, 5);
bsplines!(p1_s0_1, p1, 2, 1, 0);
bsplines!(p1_s0_2, p1, 3, 2, 0);
bsplines!(p1_s0_3, p1, 4, 3, 0);
bsplines!(p1_s1_2, p1, 4, 2, 1);
bsplines_d!(p1_sd1_2, p1, 4, 2, 1);
bsplines!(p1_s1_3, p1, 5, 3, 1);
bsplines_d!(p1_sd1_3, p1, 5, 3, 1);
bsplines!(p1_s1_4, p1, 6, 4, 1);
bsplines_d!(p1_sd1_4, p1, 6, 4, 1);
bsplines!(p1_s1_5, p1, 7, 5, 1);
bsplines_d!(p1_sd1_5, p1, 7, 5, 1);
bsplines!(p1_s2_3, p1, 6, 3, 2);
bsplines_d!(p1_sd2_3, p1, 6, 3, 2);
bsplines!(p1_s2_4, p1, 7, 4, 2);
bsplines_d!(p1_sd2_4, p1, 7, 4, 2);
bsplines!(p1_s2_5, p1, 8, 5, 2);
bsplines_d!(p1_sd2_5, p1, 8, 5, 2);
bsplines!(p1_s2_6, p1, 9, 6, 2);
bsplines_d!(p1_sd2_6, p1, 9, 6, 2);
bsplines!(p1_s3_4, p1, 8, 4, 3);
bsplines_d!(p1_sd3_4, p1, 8, 4, 3);
bsplines!(p1_s3_5, p1, 9, 5, 3);
bsplines_d!(p1_sd3_5, p1, 9, 5, 3);
bsplines!(p1_s3_6, p1, 10, 6, 3);
bsplines_d!(p1_sd3_6, p1, 10, 6, 3);
bsplines!(p1_s4_5, p1, 10, 5, 4);
bsplines_d!(p1_sd4_5, p1, 10, 5, 4);
bsplines!(p1_s4_6, p1, 11, 6, 4);
bsplines_d!(p1_sd4_6, p1, 11, 6, 4);
bsplines!(p1_s5_6, p1, 12, 6, 5);
bsplines_d!(p1_sd5_6, p1, 12, 6, 5);
bsplines!(p1_s1_9, p1, 11, 9, 1);
bsplines_d!(p1_sd1_9, p1, 11, 9, 1);
bsplines!(p1_s1_12, p1, 14, 12, 1);
bsplines_d!(p1_sd1_12, p1, 14, 12, 1);
bsplines!(p1_s1_16, p1, 18, 16, 1);
bsplines_d!(p1_sd1_16, p1, 18, 16, 1);
bsplines!(p1_s1_24, p1, 26, 24, 1);
bsplines_d!(p1_sd1_24, p1, 26, 24, 1);
bsplines!(p1_s1_39, p1, 41, 39, 1);
bsplines_d!(p1_sd1_39, p1, 41, 39, 1);
bsplines!(p1_s3_34, p1, 38, 34, 3);
bsplines_d!(p1_sd3_34, p1, 38, 34, 3);
bsplines!(p1_s2_9, p1, 12, 9, 2);
bsplines_d!(p1_sd2_9, p1, 12, 9, 2);
bsplines!(p1_s2_14, p1, 17, 14, 2);
bsplines_d!(p1_sd2_14, p1, 17, 14, 2);
bsplines!(p1_s3_8, p1, 12, 8, 3);
bsplines_d!(p1_sd3_8, p1, 12, 8, 3);
bsplines!(p1_s3_10, p1, 14, 10, 3);
bsplines_d!(p1_sd3_10, p1, 14, 10, 3);
bsplines!(p1_s3_16, p1, 20, 16, 3);
bsplines_d!(p1_sd3_16, p1, 20, 16, 3);
bsplines!(p1_s4_9, p1, 14, 9, 4);
bsplines_d!(p1_sd4_9, p1, 14, 9, 4);
bsplines!(p1_s5_8, p1, 14, 8, 5);
bsplines_d!(p1_sd5_8, p1, 14, 8, 5);
bsplines!(p1_s6_7, p1, 14, 7, 6);
bsplines_d!(p1_sd6_7, p1, 14, 7, 6);
bsplines!(p1_s6_9, p1, 16, 9, 6);
bsplines_d!(p1_sd6_9, p1, 16, 9, 6);
bsplines!(p1_s7_8, p1, 16, 8, 7);
bsplines_d!(p1_sd7_8, p1, 16, 8, 7);
bsplines!(p1_s8_9, p1, 18, 9, 8);
bsplines_d!(p1_sd8_9, p1, 18, 9, 8);
bsplines!(p1_z1_300, p1, 302, 300, 1);
bsplines_d!(p1_zd1_300, p1, 302, 300, 1);
bsplines!(p2_z3_300, p2, 304, 300, 3);
bsplines!(p1_z3_300, p1, 304, 300, 3);
bsplines_d!(p1_zd3_300, p1, 304, 300, 3);
bsplines!(p2_s2_7, p2, 10, 7, 2);
bsplines_d!(p2_sd2_7, p2, 10, 7, 2);
bsplines!(p2_s3_7, p2, 11, 7, 3);
bsplines_d!(p2_sd3_7, p2, 11, 7, 3);
bsplines!(p2_s0_1, p2, 2, 1, 0);
bsplines!(p2_s0_2, p2, 3, 2, 0);
bsplines!(p2_s1_2, p2, 4, 2, 1);
bsplines_d!(p2_sd1_2, p2, 4, 2, 1);
bsplines!(p2_s1_3, p2, 5, 3, 1);
bsplines_d!(p2_sd1_3, p2, 5, 3, 1);
bsplines!(p2_s2_3, p2, 6, 3, 2);
bsplines_d!(p2_sd2_3, p2, 6, 3, 2);
bsplines!(p2_s2_4, p2, 7, 4, 2);
bsplines_d!(p2_sd2_4, p2, 7, 4, 2);
bsplines!(p2_s3_4, p2, 8, 4, 3);
bsplines_d!(p2_sd3_4, p2, 8, 4, 3);
bsplines!(p2_s3_5, p2, 9, 5, 3);
bsplines_d!(p2_sd3_5, p2, 9, 5, 3);
bsplines!(p2_s4_5, p2, 10, 5, 4);
bsplines_d!(p2_sd4_5, p2, 10, 5, 4);
bsplines!(p2_s4_6, p2, 11, 6, 4);
bsplines_d!(p2_sd4_6, p2, 11, 6, 4);
bsplines!(p2_s5_6, p2, 12, 6, 5);
bsplines_d!(p2_sd5_6, p2, 12, 6, 5);
bsplines!(u3_s0_1, u3, 2, 1, 0);
bsplines!(u3_s0_2, u3, 3, 2, 0);
bsplines!(u3_s1_2, u3, 4, 2, 1);
bsplines_d!(u3_sd1_2, u3, 4, 2, 1);
bsplines!(u3_s1_3, u3, 5, 3, 1);
bsplines_d!(u3_sd1_3, u3, 5, 3, 1);
bsplines!(u3_s2_3, u3, 6, 3, 2);
bsplines_d!(u3_sd2_3, u3, 6, 3, 2);
bsplines!(u3_s2_4, u3, 7, 4, 2);
bsplines_d!(u3_sd2_4, u3, 7, 4, 2);
bsplines!(u3_s3_4, u3, 8, 4, 3);
bsplines_d!(u3_sd3_4, u3, 8, 4, 3);
bsplines!(u3_s3_5, u3, 9, 5, 3);
bsplines_d!(u3_sd3_5, u3, 9, 5, 3);
bsplines!(u3_s4_5, u3, 10, 5, 4);
bsplines_d!(u3_sd4_5, u3, 10, 5, 4);
bsplines!(u3_s4_6, u3, 11, 6, 4);
bsplines_d!(u3_sd4_6, u3, 11, 6, 4);
bsplines!(u3_s5_6, u3, 12, 6, 5);
bsplines_d!(u3_sd5_6, u3, 12, 6, 5);
bsplines_new!(n0_1_1, p1, 1, 1, 0);
bsplines_new!(n0_1_3, p1, 3, 1, 0);
bsplines_new!(n0_1_4, p1, 4, 1, 0);
bsplines_new!(n0_2_1, p1, 1, 2, 0);
bsplines_new!(n0_2_2, p1, 2, 2, 0);
bsplines_new!(n0_2_4, p1, 4, 2, 0);
bsplines_new!(n0_2_5, p1, 5, 2, 0);
bsplines_new!(n0_3_1, p1, 1, 3, 0);
bsplines_new!(n0_3_2, p1, 2, 3, 0);
bsplines_new!(n0_3_3, p1, 3, 3, 0);
bsplines_new!(n0_3_5, p1, 5, 3, 0);
bsplines_new!(n0_3_6, p1, 6, 3, 0);
bsplines_new!(n1_1_1, p1, 1, 1, 1);
bsplines_new!(n1_1_2, p1, 2, 1, 1);
bsplines_new!(n1_1_3, p1, 3, 1, 1);
bsplines_new!(n1_1_4, p1, 4, 1, 1);
bsplines_new!(n1_1_5, p1, 5, 1, 1);
bsplines_new!(n1_2_1, p1, 1, 2, 1);
bsplines_new!(n1_2_2, p1, 2, 2, 1);
bsplines_new!(n1_2_3, p1, 3, 2, 1);
bsplines_new!(n1_2_5, p1, 5, 2, 1);
bsplines_new!(n1_2_6, p1, 6, 2, 1);
bsplines_new!(n1_3_1, p1, 1, 3, 1);
bsplines_new!(n1_3_2, p1, 2, 3, 1);
bsplines_new!(n1_3_3, p1, 3, 3, 1);
bsplines_new!(n1_3_4, p1, 4, 3, 1);
bsplines_new!(n1_3_6, p1, 6, 3, 1);
bsplines_new!(n1_3_7, p1, 7, 3, 1);
bsplines_new!(n1_4_1, p1, 1, 4, 1);
bsplines_new!(n1_4_2, p1, 2, 4, 1);
bsplines_new!(n1_4_4, p1, 4, 4, 1);
bsplines_new!(n1_4_5, p1, 5, 4, 1);
bsplines_new!(n1_4_7, p1, 7, 4, 1);
bsplines_new!(n1_4_8, p1, 8, 4, 1);
bsplines_new!(n2_1_1, p1, 1, 1, 2);
bsplines_new!(n2_1_2, p1, 2, 1, 2);
bsplines_new!(n2_1_3, p1, 3, 1, 2);
bsplines_new!(n2_1_4, p1, 4, 1, 2);
bsplines_new!(n2_1_5, p1, 5, 1, 2);
bsplines_new!(n2_1_6, p1, 6, 1, 2);
bsplines_new!(n2_2_1, p1, 1, 2, 2);
bsplines_new!(n2_2_2, p1, 2, 2, 2);
bsplines_new!(n2_2_3, p1, 3, 2, 2);
bsplines_new!(n2_2_4, p1, 4, 2, 2);
bsplines_new!(n2_2_5, p1, 5, 2, 2);
bsplines_new!(n2_2_6, p1, 6, 2, 2);
bsplines_new!(n2_2_7, p1, 7, 2, 2);
bsplines_new!(n2_3_1, p1, 1, 3, 2);
bsplines_new!(n2_3_2, p1, 2, 3, 2);
bsplines_new!(n2_3_4, p1, 4, 3, 2);
bsplines_new!(n2_3_5, p1, 5, 3, 2);
bsplines_new!(n2_3_7, p1, 7, 3, 2);
bsplines_new!(n2_3_8, p1, 8, 3, 2);
bsplines_new!(n2_4_1, p1, 1, 4, 2);
bsplines_new!(n2_4_2, p1, 2, 4, 2);
bsplines_new!(n2_4_5, p1, 5, 4, 2);
bsplines_new!(n2_4_6, p1, 6, 4, 2);
bsplines_new!(n2_4_8, p1, 8, 4, 2);
bsplines_new!(n2_4_9, p1, 9, 4, 2);
bsplines_new!(n2_5_1, p1, 1, 5, 2);
bsplines_new!(n2_5_2, p1, 2, 5, 2);
bsplines_new!(n2_5_6, p1, 6, 5, 2);
bsplines_new!(n2_5_7, p1, 7, 5, 2);
bsplines_new!(n2_5_9, p1, 9, 5, 2);
bsplines_new!(n2_5_10, p1, 10, 5, 2);
bsplines_new!(n3_1_1, p1, 1, 1, 3);
bsplines_new!(n3_1_2, p1, 2, 1, 3);
bsplines_new!(n3_1_3, p1, 3, 1, 3);
bsplines_new!(n3_1_4, p1, 4, 1, 3);
bsplines_new!(n3_1_5, p1, 5, 1, 3);
bsplines_new!(n3_1_6, p1, 6, 1, 3);
bsplines_new!(n3_1_7, p1, 7, 1, 3);
bsplines_new!(n3_2_1, p1, 1, 2, 3);
bsplines_new!(n3_2_2, p1, 2, 2, 3);
bsplines_new!(n3_2_4, p1, 4, 2, 3);
bsplines_new!(n3_2_5, p1, 5, 2, 3);
bsplines_new!(n3_2_6, p1, 6, 2, 3);
bsplines_new!(n3_2_7, p1, 7, 2, 3);
bsplines_new!(n3_2_8, p1, 8, 2, 3);
bsplines_new!(n3_3_1, p1, 1, 3, 3);
bsplines_new!(n3_3_2, p1, 2, 3, 3);
bsplines_new!(n3_3_5, p1, 5, 3, 3);
bsplines_new!(n3_3_6, p1, 6, 3, 3);
bsplines_new!(n3_3_7, p1, 7, 3, 3);
bsplines_new!(n3_3_8, p1, 8, 3, 3);
bsplines_new!(n3_3_9, p1, 9, 3, 3);
bsplines_new!(n3_4_1, p1, 1, 4, 3);
bsplines_new!(n3_4_2, p1, 2, 4, 3);
bsplines_new!(n3_4_6, p1, 6, 4, 3);
bsplines_new!(n3_4_7, p1, 7, 4, 3);
bsplines_new!(n3_4_9, p1, 9, 4, 3);
bsplines_new!(n3_4_10, p1, 10, 4, 3);
bsplines_new!(n3_5_1, p1, 1, 5, 3);
bsplines_new!(n3_5_2, p1, 2, 5, 3);
bsplines_new!(n3_5_7, p1, 7, 5, 3);
bsplines_new!(n3_5_8, p1, 8, 5, 3);
bsplines_new!(n3_5_10, p1, 10, 5, 3);
bsplines_new!(n3_5_11, p1, 11, 5, 3);
bsplines_new!(n3_6_1, p1, 1, 6, 3);
bsplines_new!(n3_6_2, p1, 2, 6, 3);
bsplines_new!(n3_6_8, p1, 8, 6, 3);
bsplines_new!(n3_6_9, p1, 9, 6, 3);
bsplines_new!(n3_6_11, p1, 11, 6, 3);
bsplines_new!(n3_6_12, p1, 12, 6, 3);
bsplines_new!(n4_1_1, p1, 1, 1, 4);
bsplines_new!(n4_1_2, p1, 2, 1, 4);
bsplines_new!(n4_1_4, p1, 4, 1, 4);
bsplines_new!(n4_1_5, p1, 5, 1, 4);
bsplines_new!(n4_1_6, p1, 6, 1, 4);
bsplines_new!(n4_1_7, p1, 7, 1, 4);
bsplines_new!(n4_1_8, p1, 8, 1, 4);
bsplines_new!(n4_2_1, p1, 1, 2, 4);
bsplines_new!(n4_2_2, p1, 2, 2, 4);
bsplines_new!(n4_2_5, p1, 5, 2, 4);
bsplines_new!(n4_2_6, p1, 6, 2, 4);
bsplines_new!(n4_2_7, p1, 7, 2, 4);
bsplines_new!(n4_2_8, p1, 8, 2, 4);
bsplines_new!(n4_2_9, p1, 9, 2, 4);
bsplines_new!(n4_3_1, p1, 1, 3, 4);
bsplines_new!(n4_3_2, p1, 2, 3, 4);
bsplines_new!(n4_3_6, p1, 6, 3, 4);
bsplines_new!(n4_3_7, p1, 7, 3, 4);
bsplines_new!(n4_3_8, p1, 8, 3, 4);
bsplines_new!(n4_3_9, p1, 9, 3, 4);
bsplines_new!(n4_3_10, p1, 10, 3, 4);
bsplines_new!(n4_4_1, p1, 1, 4, 4);
bsplines_new!(n4_4_2, p1, 2, 4, 4);
bsplines_new!(n4_4_7, p1, 7, 4, 4);
bsplines_new!(n4_4_8, p1, 8, 4, 4);
bsplines_new!(n4_4_9, p1, 9, 4, 4);
bsplines_new!(n4_4_10, p1, 10, 4, 4);
bsplines_new!(n4_4_11, p1, 11, 4, 4);
bsplines_new!(n4_5_1, p1, 1, 5, 4);
bsplines_new!(n4_5_2, p1, 2, 5, 4);
bsplines_new!(n4_5_8, p1, 8, 5, 4);
bsplines_new!(n4_5_9, p1, 9, 5, 4);
bsplines_new!(n4_5_11, p1, 11, 5, 4);
bsplines_new!(n4_5_12, p1, 12, 5, 4);
bsplines_new!(n4_6_1, p1, 1, 6, 4);
bsplines_new!(n4_6_2, p1, 2, 6, 4);
bsplines_new!(n4_6_9, p1, 9, 6, 4);
bsplines_new!(n4_6_10, p1, 10, 6, 4);
bsplines_new!(n4_6_12, p1, 12, 6, 4);
bsplines_new!(n4_6_13, p1, 13, 6, 4);
bsplines_new!(n4_7_1, p1, 1, 7, 4);
bsplines_new!(n4_7_2, p1, 2, 7, 4);
bsplines_new!(n4_7_10, p1, 10, 7, 4);
bsplines_new!(n4_7_11, p1, 11, 7, 4);
bsplines_new!(n4_7_13, p1, 13, 7, 4);
bsplines_new!(n4_7_14, p1, 14, 7, 4);

// ---- second derivatives
beziers_dd!(p1_be3, p1, 3);
beziers_dd!(p1_be4, p1, 4);
beziers_dd!(p1_be5, p1, 5);
beziers_dd!(p1_be6, p1, 6);
beziers_dd!(p1_be8, p1, 8);
beziers_dd!(p1_be11, p1, 11);
beziers_dd!(p2_be3, p2, 3);
beziers_dd!(p2_be4, p2, 4);
beziers_dd!(p2_be5, p2, 5);
beziers_dd!(p3_be4, p3, 4);
beziers_dd!(u3_be3, u3, 3);
beziers_dd!(u3_be4, u3, 4);
bsplines_dd!(p1_se2_3, p1, 6, 3, 2);
bsplines_dd!(p1_se2_4, p1, 7, 4, 2);
bsplines_dd!(p1_se2_5, p1, 8, 5, 2);
bsplines_dd!(p1_se2_6, p1, 9, 6, 2);
bsplines_dd!(p1_se3_4, p1, 8, 4, 3);
bsplines_dd!(p1_se3_5, p1, 9, 5, 3);
bsplines_dd!(p1_se3_6, p1, 10, 6, 3);
bsplines_dd!(p1_se4_5, p1, 10, 5, 4);
bsplines_dd!(p1_se4_6, p1, 11, 6, 4);
bsplines_dd!(p1_se5_6, p1, 12, 6, 5);
bsplines_dd!(p2_se2_3, p2, 6, 3, 2);
bsplines_dd!(p2_se2_4, p2, 7, 4, 2);
bsplines_dd!(p2_se3_4, p2, 8, 4, 3);
bsplines_dd!(p2_se3_5, p2, 9, 5, 3);
bsplines_dd!(u3_se2_3, u3, 6, 3, 2);
bsplines_dd!(u3_se3_4, u3, 8, 4, 3);

// ---- instances around the sizes that occur as literals in the library's source (written by check.py)
#[cfg(stroke_extra)]
include!(env!("STROKE_EXTRA"));
