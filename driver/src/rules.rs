//! The rules: one function per property.  Each enumerates the instances of
//! the property in the analysed program, states what the derived value of
//! each instance must be, and records one obligation per comparison.
use crate::ck::*;
use crate::poly::*;
use crate::rat::*;
use crate::term::*;
use crate::value::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub struct Shape { pub m: String, pub pm: &'static str, pub d: usize, pub n: usize }

impl Ck {
    /// point types of the harness: (module, dimension); "u3" is the user-defined one
    pub fn dims(&self) -> Vec<(&'static str, usize)> {
        let mut v: Vec<(&'static str, usize)> = vec![("u3", 3)];
        for n in self.ents.keys() {
            let d = match n.strip_suffix("::line_eval").and_then(|m| m.strip_prefix('p')).and_then(|x| x.parse::<usize>().ok()) { Some(d) => d, None => continue };
            v.push((Box::leak(format!("p{}", d).into_boxed_str()), d));
        }
        v.sort_by_key(|x| (x.1, x.0));
        v
    }
    /// instances of the generic curve ("b": any, "bd": with derivative)
    pub fn beziers(&self, kind: &str, op: &str) -> Vec<Shape> {
        let mut v = vec![];
        for (pm, d) in self.dims() {
            for n in 1..=400 {
                let m = format!("{}_{}{}", pm, kind, n);
                if self.has(&format!("{}::{}", m, op)) { v.push(Shape { m, pm, d, n }); }
            }
        }
        v
    }
    /// B-spline instances (module, dimension, degree, control points)
    pub fn bsplines(&self, kind: &str, op: &str) -> Vec<(String, usize, usize, usize)> {
        let mut v = vec![];
        for (pm, d) in self.dims() { for g in 0..=12 { for c in 1..=400 {
            let m = format!("{}_{}{}_{}", pm, kind, g, c);
            if self.has(&format!("{}::{}", m, op)) { v.push((m, d, g, c)); }
        } } }
        v
    }
}
const SPECIAL: [(&str, usize); 3] = [("line", 2), ("quad", 3), ("cubic", 4)];
fn point_eq(v: &Val, base: &[usize], want: &[Tm], name: &str) -> Result<Vec<(String, Tm, Tm)>, String> {
    let mut out = vec![];
    for (k, w) in want.iter().enumerate() {
        let mut p = base.to_vec();
        p.push(k);
        out.push((format!("{}.{}", name, AX[k]), num(v, &p)?, *w));
    }
    Ok(out)
}
fn points_eq(v: &Val, base: &[usize], want: &[Vec<Tm>], name: &str) -> Result<Vec<(String, Tm, Tm)>, String> {
    let mut out = vec![];
    for (i, w) in want.iter().enumerate() {
        let mut p = base.to_vec();
        p.push(i);
        out.extend(point_eq(v, &p, w, &format!("{}[{}]", name, i))?);
    }
    Ok(out)
}
fn bern_pt(c: &[Vec<Tm>], t: Tm) -> Vec<Tm> { (0..c[0].len()).map(|k| bern(&col(c, k), t)).collect() }

// ------------------------------------------------------------------ C01
pub fn c01(ck: &mut Ck) {
    let t = var("t");
    let mut list: Vec<(String, usize, usize)> = vec![];
    for (pm, d) in ck.dims() {
        for (nm, n) in SPECIAL { list.push((format!("{}::{}_eval", pm, nm), n, d)); }
        for nm in ["quad", "cubic"] { list.push((format!("{}::{}_casteljau", pm, nm), if nm == "quad" { 3 } else { 4 }, d)); }
        for k in 1..=3 { for ev in ["eval", "eval32"] { list.push((format!("{}::seg{}_{}", pm, k, ev), k + 1, d)); } }
    }
    for op in ["eval", "spline_eval"] { for s in ck.beziers("b", op) { list.push((format!("{}::{}", s.m, op), s.n, s.d)); } }
    for (e, n, d) in list {
        ck.set_soft(n > 16 || d > 8);
        let c = pts(n, d);
        let run = ck.run(&e, "", vec![pv(&c), tv(t)], Facts::new());
        let w = bern_pt(&c, t);
        ck.expect("value = sum of Bernstein weights times control points", &run, &|_, v| point_eq(v, &[], &w, "value"));
    }
    ck.set_soft(false);
    crate::long::c01(ck);
}
// ------------------------------------------------------------------ C02
pub fn c02(ck: &mut Ck) {
    let t = var("t");
    for (pm, d) in ck.dims() { ck.set_soft(d > 8); for (nm, n) in SPECIAL { for k in 0..d {
        let c = pts(n, d);
        let run = ck.run(&format!("{}::{}_axis", pm, nm), &format!("axis {}", k), vec![pv(&c), tv(t), iv(k)], Facts::new());
        let w = bern(&col(&c, k), t);
        ck.expect("axis sample = that coordinate of the Bernstein form", &run, &|_, v| Ok(vec![(format!("axis {}", k), num(v, &[])?, w)]));
    } } }
}
// ------------------------------------------------------------------ C03
/// control values of the two parts, from the blossom of the Bernstein form
fn split_want(c: &[Vec<Tm>], t: Tm) -> (Vec<Vec<Tm>>, Vec<Vec<Tm>>) {
    let n = c.len();
    let l = (0..n).map(|j| bern_pt(&c[0..=j], t)).collect();
    let r = (0..n).map(|j| bern_pt(&c[j..n], t)).collect();
    (l, r)
}
pub fn c03(ck: &mut Ck) {
    let t = var("t");
    let rule = "split control points = blossom values b(0..0,t..t) and b(t..t,1..1)";
    let mut list: Vec<(String, usize, usize)> = vec![];
    for (pm, d) in ck.dims() { for (nm, n) in SPECIAL { list.push((format!("{}::{}_split", pm, nm), n, d)); } }
    for s in ck.beziers("b", "split") { list.push((format!("{}::split", s.m), s.n, s.d)); }
    for (e, n, d) in list {
        ck.set_soft(n > 16 || d > 8);
        let c = pts(n, d);
        let run = ck.run(&e, "", vec![pv(&c), tv(t)], Facts::new());
        let (l, r) = split_want(&c, t);
        ck.expect(rule, &run, &|_, v| {
            let mut o = points_eq(v, &[0], &l, "left")?;
            o.extend(points_eq(v, &[1], &r, "right")?);
            Ok(o)
        });
    }
    ck.set_soft(false);
    for (pm, d) in ck.dims() { for (k, op) in (1..=3usize).flat_map(|k| [(k, "split"), (k, "split32")]) {
        ck.set_soft(d > 8);
        let c = pts(k + 1, d);
        let run = ck.run(&format!("{}::seg{}_{}", pm, k, op), "", vec![pv(&c), tv(t)], Facts::new());
        let (l, r) = split_want(&c, t);
        ck.expect(rule, &run, &|_, v| {
            for s in 0..2 { if int(v, &[s, 0])? != k as i128 { return Err(format!("part {} has variant {} instead of {}", s, int(v, &[s, 0])?, k)); } }
            let mut o = points_eq(v, &[0, 1], &l, "left")?;
            o.extend(points_eq(v, &[1, 1], &r, "right")?);
            Ok(o)
        });
    } }
    ck.set_soft(false);
    crate::long::c03(ck);
}
// ------------------------------------------------------------------ C04
pub fn c04(ck: &mut Ck) {
    let t = var("t");
    let mut list: Vec<(String, usize, usize, bool)> = vec![];
    for (pm, d) in ck.dims() {
        for (nm, n) in SPECIAL { list.push((format!("{}::{}_split", pm, nm), n, d, false)); }
        for k in 1..=3 { for op in ["split", "split32"] { list.push((format!("{}::seg{}_{}", pm, k, op), k + 1, d, true)); } }
    }
    for s in ck.beziers("b", "split") { list.push((format!("{}::split", s.m), s.n, s.d, false)); }
    for (e, n, d, seg) in list {
        ck.set_soft(n > 16 || d > 8);
        let c = pts(n, d);
        let run = ck.run(&e, "", vec![pv(&c), tv(t)], Facts::new());
        for (i, (f, v)) in run.outs.iter().enumerate() {
            for k in 0..d {
                let p = |side: usize, j: usize| -> Result<Tm, String> { if seg { num(v, &[side, 1, j, k]) } else { num(v, &[side, j, k]) } };
                let chk = |a: Result<Tm, String>, b: Result<Tm, String>| -> Rs { bits_same(f, a?, b?) };
                let part = format!("{} partition {}", AX[k], i);
                ck.ob("join point: one value number on both sides", &run, &part, chk(p(0, n - 1), p(1, 0)));
                ck.ob("left part starts with a copy of the first control point", &run, &part, chk(p(0, 0), Ok(c[0][k])));
                ck.ob("right part ends with a copy of the last control point", &run, &part, chk(p(1, n - 1), Ok(c[n - 1][k])));
            }
        }
    }
    ck.set_soft(false);
    crate::long::c04(ck);
}
// ------------------------------------------------------------------ C05
pub fn c05(ck: &mut Ck) {
    let t = var("t");
    let rule = "derivative = hodograph of the Bernstein form";
    for (pm, d) in ck.dims() {
        ck.set_soft(d > 8);
        for (nm, n) in SPECIAL {
            let c = pts(n, d);
            let h: Vec<Vec<Tm>> = { let cols: Vec<Vec<Tm>> = (0..d).map(|k| hodo(&col(&c, k))).collect(); (0..n - 1).map(|i| (0..d).map(|k| cols[k][i]).collect()).collect() };
            let run = ck.run(&format!("{}::{}_deriv", pm, nm), "", vec![pv(&c)], Facts::new());
            if n == 2 { ck.expect(rule, &run, &|_, v| point_eq(v, &[], &h[0], "derivative")); continue; }
            ck.expect(rule, &run, &|_, v| points_eq(v, &[], &h, "derivative control point"));
            let run = ck.run(&format!("{}::{}_deriv_eval", pm, nm), "", vec![pv(&c), tv(t)], Facts::new());
            let w = bern_pt(&h, t);
            ck.expect(rule, &run, &|_, v| point_eq(v, &[], &w, "derivative"));
        }
    }
    for s in ck.beziers("bd", "deriv_eval") {
        let (n, d) = (s.n, s.d);
        ck.set_soft(n > 16 || d > 8);
        let c = pts(n, d);
        let cols: Vec<Vec<Tm>> = (0..d).map(|k| hodo(&col(&c, k))).collect();
        let h: Vec<Vec<Tm>> = (0..n - 1).map(|i| (0..d).map(|k| cols[k][i]).collect()).collect();
        let run = ck.run(&format!("{}::deriv", s.m), "", vec![pv(&c)], Facts::new());
        ck.expect(rule, &run, &|_, v| {
            if int(v, &[0])? != n as i128 - 1 { return Err(format!("derivative has {} control points instead of {}", int(v, &[0])?, n - 1)); }
            points_eq(v, &[1], &h, "derivative control point")
        });
        let run = ck.run(&format!("{}::deriv_eval", s.m), "", vec![pv(&c), tv(t)], Facts::new());
        let w = bern_pt(&h, t);
        ck.expect(rule, &run, &|_, v| point_eq(v, &[], &w, "derivative"));
    }
    ck.set_soft(false);
    c05_higher(ck);
    crate::long::c05(ck);
}
/// derivatives of derivatives
fn c05_higher(ck: &mut Ck) {
    let t = var("t");
    let rule = "derivative of a derivative = higher hodograph";
    let diff = |c: &[Vec<Tm>]| -> Vec<Vec<Tm>> {
        let d = c[0].len();
        let cols: Vec<Vec<Tm>> = (0..d).map(|k| hodo(&col(c, k))).collect();
        (0..c.len() - 1).map(|i| (0..d).map(|k| cols[k][i]).collect()).collect()
    };
    for (pm, d) in ck.dims() {
        ck.set_soft(d > 8);
        for (op, n, o) in [("quad_deriv2", 3usize, 2), ("cubic_deriv2", 4, 2), ("cubic_deriv3", 4, 3)] {
            let c = pts(n, d);
            let mut h = c.clone();
            for _ in 0..o { h = diff(&h); }
            let run = ck.run(&format!("{}::{}", pm, op), "", vec![pv(&c)], Facts::new());
            if h.len() == 1 { ck.expect(rule, &run, &|_, v| point_eq(v, &[], &h[0], "derivative")); } else { ck.expect(rule, &run, &|_, v| points_eq(v, &[], &h, "derivative control point")); }
        }
    }
    ck.set_soft(false);
    for s in ck.beziers("be", "deriv2_eval") {
        let c = pts(s.n, s.d);
        let h = diff(&diff(&c));
        let run = ck.run(&format!("{}::deriv2_eval", s.m), "", vec![pv(&c), tv(t)], Facts::new());
        let w = bern_pt(&h, t);
        ck.expect(rule, &run, &|_, v| point_eq(v, &[], &w, "derivative"));
    }
}
// ------------------------------------------------------------------ C06
pub fn c06(ck: &mut Ck) {
    let t = var("t");
    for (pm, d) in ck.dims() { for (nm, n) in [("quad", 3), ("cubic", 4)] { for k in 0..d {
        ck.set_soft(d > 8);
        let c = pts(n, d);
        let run = ck.run(&format!("{}::{}_dd", pm, nm), &format!("axis {}", k), vec![pv(&c), tv(t), iv(k)], Facts::new());
        let w = bern(&hodo(&col(&c, k)), t);
        ck.expect("direct derivative sample = hodograph coordinate", &run, &|_, v| Ok(vec![(format!("axis {}", k), num(v, &[])?, w)]));
    } } }
}
// ------------------------------------------------------------------ C07
fn flat(t: Tm, f: &'static str, out: &mut Vec<Tm>) {
    match &*get(t) {
        T::Fun(g, v) if *g == f => for x in v { flat(*x, f, out) },
        _ => if !out.contains(&t) { out.push(t) },
    }
}
fn decide_cmp(f: &Facts, a: Tm, b: Tm) -> u8 { f.cmp(a, b) }
/// values of the polynomial at its interior critical parameters, by cases
struct Crit { roots: Vec<Tm>, all: Vec<Tm> }
fn extremes(f: &Facts, p: &[Tm], lo: Tm, hi: Tm, depth: u32) -> Rs {
    if f.contradictory() { return Ok("infeasible".into()); }
    let split = |c: Cd, d: u32| -> Rs {
        if d == 0 { return Err(format!("undecided within the case bound: {}", cut(&showc(c), 200))); }
        let mut s = String::new();
        for v in [true, false] { let g = f.assume(c, v); if !g.contradictory() { s = extremes(&g, p, lo, hi, d - 1)?; } }
        Ok(s)
    };
    let mut memo = HashMap::new();
    let (l, h) = (resolve(lo, f, &mut memo), resolve(hi, f, &mut memo));
    let (mut sl, mut sh) = (vec![], vec![]);
    flat(l, "min", &mut sl);
    flat(h, "max", &mut sh);
    for x in sl.iter().chain(&sh) { if piecewise(*x) { if let Some(c) = split_cond(*x, f) { return split(c, depth); } } }
    // critical parameters
    let n = p.len() - 1;
    let h1 = hodo(p);
    let mut cr_ = Crit { roots: vec![], all: vec![] };
    let zero = ci(0);
    let lin = |a: Tm, b: Tm, out: &mut Crit| -> Result<(), Cd> {
        // a t + b
        match f.cmp(a, zero) { m if m == ZERO => {}, m if m & ZERO == 0 => { let r = neg(div(b, a)); out.roots.push(r); out.all.push(r); }, _ => return Err(eq(a, zero)) }
        Ok(())
    };
    if n == 2 {
        if let Err(c) = lin(sub(h1[1], h1[0]), h1[0], &mut cr_) { return split(c, depth); }
    } else if n == 3 {
        let a = add(sub(h1[0], mul(ci(2), h1[1])), h1[2]);
        let b = mul(ci(2), sub(h1[1], h1[0]));
        let c = h1[0];
        match f.cmp(a, zero) {
            m if m == ZERO => if let Err(c) = lin(b, c, &mut cr_) { return split(c, depth); },
            m if m & ZERO == 0 => {
                let disc = sub(mul(b, b), mul(mul(ci(4), a), c));
                match f.cmp(disc, zero) {
                    m if m == NEG => cr_.all.push(div(neg(b), mul(ci(2), a))),
                    m if m == ZERO => cr_.all.push(div(neg(b), mul(ci(2), a))),
                    m if m == POS => {
                        let s = sqrt(disc);
                        for r in [div(add(neg(b), s), mul(ci(2), a)), div(sub(neg(b), s), mul(ci(2), a))] { cr_.roots.push(r); cr_.all.push(r); }
                        // the factored forms b = a r etc. are the same normal form
                    }
                    m if m & NEG == 0 => return split(eq(disc, zero), depth),
                    _ => return split(lt(disc, zero), depth),
                }
            }
            _ => return split(eq(a, zero), depth),
        }
    }
    // every required value must be covered
    let mut need = vec![p[0], p[n]];
    for r in &cr_.roots {
        let m0 = f.cmp(*r, zero);
        let m1 = f.cmp(*r, ci(1));
        if m0 & POS == 0 || m1 & NEG == 0 { continue; }
        if m0 != POS { return split(lt(zero, *r), depth); }
        if m1 != NEG { return split(lt(*r, ci(1)), depth); }
        need.push(bern(p, *r));
    }
    let eqv = |a: Tm, b: Tm| -> bool { a == b || match (f.nf(a), f.nf(b)) { (Some(x), Some(y)) => { let e = x.eq(&y) && !overflowed(); clear_overflow(); e } _ => false } };
    // values through which a comparison may be known: the curve at an inflection counts too
    let mut known = need.clone();
    for r in &cr_.all { let v = bern(p, *r); if !known.contains(&v) { known.push(v); } }
    for (set, nm, bad) in [(&sl, "lower", POS), (&sh, "upper", NEG)] {
        for w in &need {
            if set.iter().any(|e| eqv(*e, *w)) { continue; }
            if set.iter().any(|e| decide_cmp(f, *e, *w) & bad == 0) { continue; }
            // a chain of decided comparisons through the other curve values
            let mut seen = set.clone();
            let mut i = 0;
            while i < seen.len() { for m in &known { if !seen.contains(m) && decide_cmp(f, seen[i], *m) & bad == 0 { seen.push(*m); } } i += 1; }
            if seen.contains(w) { continue; }
            return Err(format!("the {} bound does not take the curve value {} into account; path condition: {}", nm, f.nf(*w).map(|r| cut(&show_rf(&r), 300)).unwrap_or_default(), path(f)));
        }
        for e in set {
            if eqv(*e, p[0]) || eqv(*e, p[n]) { continue; }
            let mut ok = false;
            for r in &cr_.all {
                if !eqv(*e, bern(p, *r)) { continue; }
                if f.cmp(*r, zero) & NEG == 0 && f.cmp(*r, ci(1)) & POS == 0 { ok = true; break; }
            }
            if !ok { return Err(format!("the {} bound uses {}, which is not shown to be a value of the curve on [0,1]; path condition: {}", nm, f.nf(*e).map(|r| cut(&show_rf(&r), 300)).unwrap_or_else(|| show(*e)), path(f))); }
        }
    }
    Ok(format!("min of {} and max of {} curve values; path: {}", sl.len(), sh.len(), path(f)))
}
/// inputs where only coordinate k is symbolic
pub fn pts_one(n: usize, d: usize, k: usize, seed: usize) -> Vec<Vec<Tm>> {
    const Q: [[i128; 5]; 3] = [[1, 3, 4, 8, 9], [2, -5, 7, 1, 3], [4, 2, 2, -1, -6]];
    (0..n).map(|i| (0..d).map(|j| if j == k { var(&cname(i, j)) } else { ci(Q[(seed + j) % 3][i % 5] + j as i128) }).collect()).collect()
}
pub fn c07(ck: &mut Ck) {
    let rule = "bounds = min / max over the curve on [0,1]";
    for (pm, d) in ck.dims() { for (nm, n) in SPECIAL {
        let mut cases = vec![];
        if d == 1 || (d == 2 && n <= 3) || (d == 3 && n == 2) || (ck.thorough && d == 2) { cases.push((String::new(), pts(n, d))); }
        if d > 1 { for k in 0..d { for s in 0..(if ck.thorough { 3 } else { 1 }) {
            cases.push((format!("coordinate {} symbolic, others fixed ({})", AX[k], s), pts_one(n, d, k, s)));
        } } }
        ck.set_soft(d > 8);
        ck.it.max_parts = 20_000;
        for (case, c) in cases {
            let run = ck.run(&format!("{}::{}_bbox", pm, nm), &case, vec![pv(&c)], Facts::new());
            if run.outs.is_empty() { continue; }
            for (i, (f, v)) in run.outs.iter().enumerate() {
                let r: Rs = (|| { if int(v, &[0])? == d as i128 { Ok(format!("{} intervals", d)) } else { Err(format!("{} intervals for {} dimensions", int(v, &[0])?, d)) } })();
                ck.ob("one interval per dimension", &run, &format!("partition {}", i), r);
                for k in 0..d {
                    let r: Rs = (|| { extremes(f, &col(&c, k), num(v, &[1, k, 0])?, num(v, &[1, k, 1])?, 14) })();
                    ck.ob(rule, &run, &format!("axis {} partition {}", AX[k], i), r);
                }
            }
        }
    } }
}
// ------------------------------------------------------------------ C08
/// distance from q to the segment a b: projection parameter clamped to [0,1]
fn seg_dist(a: &[Tm], b: &[Tm], q: &[Tm]) -> Tm {
    let d = a.len();
    let v: Vec<Tm> = (0..d).map(|k| sub(b[k], a[k])).collect();
    let l2 = sum(v.iter().map(|x| mul(*x, *x)));
    let dot = sum((0..d).map(|k| mul(sub(q[k], a[k]), v[k])));
    let tau = fun("max", vec![ci(0), fun("min", vec![ci(1), div(dot, l2)])]);
    let pr: Vec<Tm> = (0..d).map(|k| add(a[k], mul(v[k], tau))).collect();
    sqrt(dist2(q, &pr))
}
fn len2(a: &[Tm], b: &[Tm]) -> Tm { dist2(a, b) }
pub fn c08(ck: &mut Ck) {
    let rule = "distance = |q - (a + clamp(proj,0,1)(b-a))|";
    for (pm, d) in ck.dims() {
        ck.set_soft(d > 8);
        let c = pts(2, d);
        let q = pt("q", d);
        let run = ck.run(&format!("{}::line_dist", pm), "", vec![pv(&c), fv(&q)], Facts::new());
        for (i, (f, v)) in run.outs.iter().enumerate() {
            let r: Rs = (|| {
                let got = num(v, &[])?;
                let l2 = len2(&c[1], &c[0]);
                let mut s = String::new();
                let m = f.cmp(l2, ci(0));
                let cases = if m == ZERO || m & ZERO == 0 { vec![f.clone()] } else { vec![f.assume(eq(l2, ci(0)), true), f.assume(eq(l2, ci(0)), false)] };
                for g in cases {
                    if g.contradictory() { continue; }
                    let want = if g.cmp(l2, ci(0)) == ZERO { sqrt(dist2(&c[0], &q)) } else { seg_dist(&c[0], &c[1], &q) };
                    // a projection known to be an end point: the clamped point is that end point itself
                    let (a, b) = (&c[0], &c[1]);
                    let tau = div(sum((0..d).map(|k| mul(sub(q[k], a[k]), sub(b[k], a[k])))), sum((0..d).map(|k| mul(sub(b[k], a[k]), sub(b[k], a[k])))));
                    let end = |x: &Vec<Tm>| same(&g, got, sqrt(dist2(x, &q)), 8);
                    s = same(&g, got, want, 8).or_else(|e| if g.cmp(tau, ci(0)) == ZERO { end(a).map_err(|_| e) } else if g.cmp(tau, ci(1)) == ZERO { end(b).map_err(|_| e) } else { Err(e) })?;
                }
                Ok(s)
            })();
            ck.ob(rule, &run, &format!("partition {}", i), r);
        }
    }
}
// ------------------------------------------------------------------ C09
#[derive(Clone, Copy)]
struct Itv { lo: Option<Rat>, hi: Option<Rat> }
impl Itv {
    fn pt(r: Rat) -> Itv { Itv { lo: Some(r), hi: Some(r) } }
    fn any() -> Itv { Itv { lo: None, hi: None } }
    fn meet(self, o: Itv) -> Itv {
        Itv { lo: match (self.lo, o.lo) { (Some(a), Some(b)) => Some(a.max(b)), (a, b) => a.or(b) }, hi: match (self.hi, o.hi) { (Some(a), Some(b)) => Some(a.min(b)), (a, b) => a.or(b) } }
    }
    fn hull(self, o: Itv) -> Itv { Itv { lo: self.lo.and_then(|a| o.lo.map(|b| a.min(b))), hi: self.hi.and_then(|a| o.hi.map(|b| a.max(b))) } }
    fn add(self, o: Itv) -> Itv { Itv { lo: self.lo.and_then(|a| o.lo.map(|b| a.add(b))), hi: self.hi.and_then(|a| o.hi.map(|b| a.add(b))) } }
    fn scale(self, k: Rat) -> Itv {
        let s = |x: Option<Rat>| x.map(|v| v.mul(k));
        if k.sign() >= 0 { Itv { lo: s(self.lo), hi: s(self.hi) } } else { Itv { lo: s(self.hi), hi: s(self.lo) } }
    }
    fn min(self, o: Itv) -> Itv { Itv { lo: match (self.lo, o.lo) { (Some(a), Some(b)) => Some(a.min(b)), _ => None }, hi: match (self.hi, o.hi) { (Some(a), Some(b)) => Some(a.min(b)), (Some(a), None) | (None, Some(a)) => Some(a), _ => None } } }
    fn max(self, o: Itv) -> Itv { self.scale(Rat::int(-1)).min(o.scale(Rat::int(-1))).scale(Rat::int(-1)) }
}
fn rf_itv(r: &RatFn, memo: &mut HashMap<Atom, Itv>) -> Itv {
    if let Some(c) = r.as_const() { return Itv::pt(c); }
    if !r.den.is_empty() { return Itv::any(); }
    let mut s = Itv::pt(Rat::ZERO);
    for (m, c) in &r.num.t {
        if m.is_empty() { s = s.add(Itv::pt(*c)); continue; }
        if m.len() == 1 && m[0].1 == 1 { s = s.add(atom_itv(m[0].0, memo).scale(*c)); } else { return Itv::any(); }
    }
    s
}
fn atom_itv(a: Atom, memo: &mut HashMap<Atom, Itv>) -> Itv {
    if let Some(i) = memo.get(&a) { return *i; }
    let r = match atom_def(a) {
        AtomDef::Var(_) => Itv::any(),
        AtomDef::Fun(f, args) => {
            let v: Vec<Itv> = args.iter().map(|x| rf_itv(x, memo)).collect();
            match f {
                "min" => v[0].min(v[1]),
                "max" => v[0].max(v[1]),
                "sqrt" => Itv { lo: Some(Rat::ZERO), hi: None },
                "abs" => Itv { lo: Some(Rat::ZERO), hi: match (v[0].lo, v[0].hi) { (Some(l), Some(h)) => Some(l.abs().max(h.abs())), _ => None } },
                _ => Itv::any(),
            }
        }
        AtomDef::Opaque(t) => match &*get(t) {
            T::Phi(c, x, y) => {
                let free = tm_itv(*x, memo).hull(tm_itv(*y, memo));
                // hand-written clamps: what the condition says about the chosen value
                let unit = matches!((free.lo, free.hi), (Some(l), Some(h)) if l.sign() >= 0 && h.le(&Rat::ONE));
                if unit { free } else { free.meet(branch_itv(*c, true, *x, &[]).hull(branch_itv(*c, false, *y, &[]))) }
            }
            _ => Itv::any(),
        },
    };
    memo.insert(a, r);
    r
}
/// interval of t where condition c has truth value v, besides the linear inequalities g >= 0 in gs
fn branch_itv(c: Cd, v: bool, t: Tm, gs: &[RatFn]) -> Itv {
    let mut gs = gs.to_vec();
    fn note(c: Cd, v: bool, gs: &mut Vec<RatFn>) {
        let diff = |a: Tm, b: Tm| match (nf(a, 0), nf(b, 0)) { (Some(x), Some(y)) => Some(x.sub(&y)), _ => None };
        let mut put = |g: Option<RatFn>| if let Some(g) = g { if g.den.is_empty() && g.num.t.len() <= 8 && g.num.t.iter().all(|(m, _)| m.is_empty() || (m.len() == 1 && m[0].1 == 1)) { gs.push(g); } };
        match &*getc(c) {
            C::Lt(a, b) | C::Le(a, b) => put(if v { diff(*b, *a) } else { diff(*a, *b) }),
            C::Eq(a, b) if v => { put(diff(*a, *b)); put(diff(*b, *a)); }
            C::Not(x) => note(*x, !v, gs),
            C::And(x, y) if v => { note(*x, v, gs); note(*y, v, gs); }
            C::Or(x, y) if !v => { note(*x, v, gs); note(*y, v, gs); }
            _ => {}
        }
    }
    note(c, v, &mut gs);
    if gs.len() > 6 { gs.drain(..gs.len() - 6); }
    given_itv(t, &gs)
}
fn given_itv(t: Tm, gs: &[RatFn]) -> Itv {
    match &*get(t) {
        T::Phi(c, x, y) => branch_itv(*c, true, *x, gs).hull(branch_itv(*c, false, *y, gs)),
        T::Fun("min", v) => given_itv(v[0], gs).min(given_itv(v[1], gs)),
        T::Fun("max", v) => given_itv(v[0], gs).max(given_itv(v[1], gs)),
        _ => {
            let r = match nf(t, 0) { Some(r) => r, None => return Itv::any() };
            let mut s = rf_itv(&r, &mut HashMap::new());
            for g in gs {
                let (m, k) = match g.num.t.iter().find(|(m, _)| !m.is_empty()) { Some((m, k)) => (m.clone(), *k), None => continue };
                let q = match r.num.t.iter().find(|(n, _)| **n == m) { Some((_, c)) => c.mul(k.inv()), None => continue };
                // r = q*g + rest, g >= 0
                if let Some(rest) = r.sub(&g.scale(q)).as_const() {
                    s = s.meet(if q.sign() > 0 { Itv { lo: Some(rest), hi: None } } else { Itv { lo: None, hi: Some(rest) } });
                }
            }
            s
        }
    }
}
fn tm_itv(t: Tm, memo: &mut HashMap<Atom, Itv>) -> Itv { match nf(t, 0) { Some(r) => rf_itv(&r, memo), None => Itv::any() } }
/// all: values the result can be; upper: values the result never exceeds
fn leaves(t: Tm, memo: &mut HashMap<Tm, (BTreeSet<Tm>, BTreeSet<Tm>)>) -> (BTreeSet<Tm>, BTreeSet<Tm>) {
    if let Some(x) = memo.get(&t) { return x.clone(); }
    let r = match &*get(t) {
        T::Fun("min", v) => { let (a, b) = (leaves(v[0], memo), leaves(v[1], memo)); (a.0.union(&b.0).copied().collect(), a.1.union(&b.1).copied().collect()) }
        T::Fun("max", v) => { let (a, b) = (leaves(v[0], memo), leaves(v[1], memo)); (a.0.union(&b.0).copied().collect(), a.1.intersection(&b.1).copied().collect()) }
        T::Phi(_, x, y) => { let (a, b) = (leaves(*x, memo), leaves(*y, memo)); (a.0.union(&b.0).copied().collect(), a.1.intersection(&b.1).copied().collect()) }
        _ => { let s: BTreeSet<Tm> = [t].into_iter().collect(); (s.clone(), s) }
    };
    memo.insert(t, r.clone());
    r
}
pub fn c09(ck: &mut Ck) {
    let mut list: Vec<(String, usize, usize)> = vec![];
    let maxd = if ck.thorough { 5 } else { 3 };
    for (pm, d) in ck.dims() { if d <= maxd || (pm == "u3") { list.push((format!("{}::quad_dist", pm), 3, d)); list.push((format!("{}::cubic_dist", pm), 4, d)); } }
    for s in ck.beziers("b", "dist") {
        let lim = if ck.thorough { match s.d { 1 => 10, 2 => 8, _ => 5 } } else { match s.d { 1 => 6, 2 => 4, _ => 3 } };
        if s.n <= lim { list.push((format!("{}::dist", s.m), s.n, s.d)); }
    }
    for (e, n, d) in list {
        let c = pts(n, d);
        let q = pt("q", d);
        let run = ck.run_join(&e, "", vec![pv(&c), fv(&q)], Facts::new());
        for (i, (f, v)) in run.outs.iter().enumerate() {
            let case = if run.outs.len() > 1 { format!("partition {}", i) } else { String::new() };
            dist_rules(ck, &run, &case, f, v, &c, &q);
        }
    }
    crate::long::c09(ck, if ck.thorough { 10 } else { 6 });
}
/// the parameter at which the curve value is |q - B(tau)|^2, read off the weights
fn dist_leaf(r: &RatFn, c: &[Vec<Tm>], q: &[Tm]) -> Result<RatFn, String> {
    let n = c.len() - 1;
    let d = q.len();
    let mut ws: Vec<Vec<RatFn>> = vec![];
    for k in 0..d {
        let qa = atom_of(q[k]).unwrap();
        if !r.den.is_empty() { return Err("not a squared distance (division)".into()); }
        let cs = r.num.coeffs_in(qa);
        if cs.len() != 3 || cs[2].as_const() != Some(Rat::ONE) { return Err(format!("not a squared distance to the query point: {}", cut(&show_rf(r), 200))); }
        let at: Vec<Atom> = c.iter().map(|x| atom_of(x[k]).unwrap()).collect();
        let lin = RatFn::poly(cs[1].scale(Rat::new(-1, 2)));
        ws.push(linear_in(&lin, &at)?);
    }
    // all coordinates with the same weights
    for k in 1..d { for i in 0..=n { if !ws[k][i].eq(&ws[0][i]) { return Err(format!("coordinate {} uses other weights than coordinate {}", AX[k], AX[0])); } } }
    let w = &ws[0];
    let mut s = RatFn::zero();
    for k in 0..d {
        let mut x = RatFn::atom(atom_of(q[k]).unwrap()).neg();
        for i in 0..=n { x = x.add(&w[i].mul(&RatFn::atom(atom_of(c[i][k]).unwrap()))); }
        s = s.add(&x.mul(&x));
    }
    if !s.eq(r) { return Err(format!("not the squared distance to a combination of the control points: {}", cut(&show_rf(r), 200))); }
    let mut tau = RatFn::zero();
    if n > 0 { for i in 0..=n { tau = tau.add(&w[i].scale(Rat::new(i as i128, n as i128))); } }
    let om = RatFn::one().sub(&tau);
    for i in 0..=n {
        let b = om.pow((n - i) as u32).mul(&tau.pow(i as u32)).scale(binom(n, i));
        if !b.eq(&w[i]) { return Err(format!("weight of control point {} is {}, not the Bernstein weight at {}", i, cut(&show_rf(&w[i]), 160), cut(&show_rf(&tau), 160))); }
    }
    if overflowed() { clear_overflow(); return Err("arithmetic range of the analysis exceeded".into()); }
    Ok(tau)
}
/// sqrt distributes over min / selection
fn unroot(t: Tm, memo: &mut HashMap<Tm, Option<Tm>>) -> Option<Tm> {
    if let Some(x) = memo.get(&t) { return *x; }
    let r = match &*get(t) {
        T::Fun("sqrt", v) => Some(v[0]),
        T::Fun(g, v) if *g == "min" || *g == "max" => match (unroot(v[0], memo), unroot(v[1], memo)) { (Some(a), Some(b)) => Some(fun(*g, vec![a, b])), _ => None },
        T::Phi(c, a, b) => match (unroot(*a, memo), unroot(*b, memo)) { (Some(a), Some(b)) => Some(phi(*c, a, b)), _ => None },
        _ => None,
    };
    memo.insert(t, r);
    r
}
const IN_UNIT: &str = "every candidate is |q - B(tau)| with tau in [0,1]";
const AT_64: &str = "the result never exceeds the distance at i/64";
/// distance to the curve with the control points w + j u, j < n: B(tau) = w + (n-1) tau u
pub fn dist_even(ck: &mut Ck, run: &Run, case: &str, f: &Facts, v: &Val, n: usize, q: Tm) {
    let sq = match num(v, &[]).and_then(|t| unroot(t, &mut HashMap::new()).ok_or(format!("derived {}", cut(&show(t), 200)))) { Ok(t) => t, Err(e) => { ck.ob("the distance is the root of a squared distance", run, case, Err(e)); return; } };
    let (all, upper) = leaves(sq, &mut HashMap::new());
    let (qa, wa, ua) = (atom_of(q).unwrap(), atom_of(var("w")).unwrap(), atom_of(var("u")).unwrap());
    let mut taus: BTreeMap<Tm, Option<Rat>> = BTreeMap::new();
    let mut memo = HashMap::new();
    let mut open = false;
    for l in &all {
        let r: Rs = (|| {
            let r = f.nf(*l).ok_or("value without a normal form")?;
            if !r.den.is_empty() { return Err("not a squared distance (division)".into()); }
            let cs = r.num.coeffs_in(qa);
            if cs.len() != 3 || cs[2].as_const() != Some(Rat::ONE) { return Err(format!("not a squared distance to the query point: {}", cut(&show_rf(&r), 200))); }
            let at = cs[1].scale(Rat::new(-1, 2));
            let us = at.coeffs_in(ua);
            let ws = us.get(0).map(|p| p.coeffs_in(wa)).unwrap_or_default();
            if us.len() > 2 || ws.len() != 2 || !ws[0].is_zero() || ws[1].as_const() != Some(Rat::ONE) { return Err(format!("the curve point {} is not on the line of the control points", cut(&show_rf(&RatFn::poly(at)), 200))); }
            let tau = if us.len() == 2 { RatFn::poly(us[1].scale(Rat::new(1, n as i128 - 1))) } else { RatFn::zero() };
            let x = RatFn::atom(qa).sub(&RatFn::atom(wa)).sub(&tau.mul(&RatFn::atom(ua)).scale(Rat::int(n as i128 - 1)));
            if !x.mul(&x).eq(&*r) { return Err(format!("not the squared distance to a curve point: {}", cut(&show_rf(&r), 200))); }
            if overflowed() { clear_overflow(); return Err("arithmetic range of the analysis exceeded".into()); }
            taus.insert(*l, tau.as_const());
            let iv = rf_itv(&tau, &mut memo);
            match (iv.lo, iv.hi) {
                (Some(lo), Some(hi)) if lo.sign() >= 0 && hi.le(&Rat::ONE) => Ok(format!("|q - B(tau)|^2 with tau = {} in [{}, {}]", cut(&show_rf(&tau), 60), lo, hi)),
                _ => Err(format!("parameter {} is not bounded by [0,1] (found [{}, {}])", cut(&show_rf(&tau), 200), iv.lo.map(|x| x.to_string()).unwrap_or("-inf".into()), iv.hi.map(|x| x.to_string()).unwrap_or("inf".into()))),
            }
        })();
        if r.is_err() { open = true; }
        ck.ob(IN_UNIT, run, case, r);
    }
    if open { return; }
    let grid: BTreeSet<Rat> = upper.iter().filter_map(|l| taus.get(l).copied().flatten()).collect();
    for i in 0..=64 { ck.ob(AT_64, run, &format!("{} i = {}", case, i), if grid.contains(&Rat::new(i, 64)) { Ok("candidate of the minimum".into()) } else { Err(format!("the curve point at parameter {}/64 is not among the candidates of the minimum", i)) }); }
}
/// the squared distances at i/64 are among the candidates, compared by their residues
pub fn dist_grid(ck: &mut Ck, run: &Run, case: &str, v: &Val, at: &dyn Fn(Tm) -> Tm) {
    let sq = match num(v, &[]).ok().and_then(|t| unroot(t, &mut HashMap::new())) { Some(t) => t, None => return };
    let (_, upper) = leaves(sq, &mut HashMap::new());
    let plain: Vec<Tm> = upper.iter().copied().filter(|l| !piecewise(*l)).collect();
    let have: Option<BTreeSet<(u64, u64)>> = plain.iter().map(|l| Some((residue(*l, 1)?, residue(*l, 2)?))).collect();
    for i in 0..=64 {
        let w = at(cr(Rat::new(i, 64)));
        let r = match (&have, residue(w, 1), residue(w, 2)) {
            (Some(h), Some(x), Some(y)) => if h.contains(&(x, y)) { Ok("a candidate of the minimum has the same residues modulo 2^61 - 1".into()) } else { Err(format!("the curve point at parameter {}/64 is not among the candidates of the minimum", i)) },
            _ => Err("arithmetic range of the analysis exceeded".to_string()),
        };
        ck.ob(AT_64, run, &format!("{} i = {}", case, i), r);
    }
}
/// distance to the curve with the control points c[j] = p[j] + j u: every candidate is the squared
/// distance to one of its points.  The value of a candidate is read as V(u) = (n-1) tau u + B_p(tau)
/// (V from two positions of the query point, tau from two values of u), by residues
pub fn dist_any(ck: &mut Ck, run: &Run, case: &str, v: &Val, p: &[Tm], q: Tm, u: Tm) {
    let sq = match num(v, &[]).ok().and_then(|t| unroot(t, &mut HashMap::new())) { Some(t) => t, None => return };
    let (all, _) = leaves(sq, &mut HashMap::new());
    let n = p.len();
    let names: BTreeSet<Tm> = p.iter().copied().collect();
    let is_p = |t: Tm| names.contains(&t);
    let (qs, us) = ([123_456_789u64, 987_654_321_987], [55_555_555_511u64, 7_777_777_003, 31_415_926_535]);
    let puts: Vec<[(Tm, u64); 2]> = us.iter().flat_map(|x| qs.iter().map(move |y| [(q, *y), (u, *x)])).collect();
    let mut at: Vec<Residues> = puts.iter().map(|put| Residues { seed: 3, put, vars: &is_p, memo: HashMap::new(), takes: HashMap::new(), deps: HashMap::new() }).collect();
    let pr: Option<Vec<u64>> = p.iter().map(|x| residue(*x, 3)).collect();
    for (i, l) in all.iter().enumerate() {
        let got: Option<bool> = (|| {
            let r: Vec<u64> = at.iter_mut().map(|x| x.at(*l)).collect::<Option<_>>()?;
            let mut w = vec![];
            for k in 0..3 {
                let (a, b) = (qs[0], qs[1]);
                let v = div_m(sub_m(sub_m(mul_m(a, a), mul_m(b, b)), sub_m(r[2 * k], r[2 * k + 1])), mul_m(2, sub_m(a, b)))?;
                if mul_m(sub_m(a, v), sub_m(a, v)) != r[2 * k] { return Some(false); }
                w.push(v);
            }
            let slope = div_m(sub_m(w[1], w[0]), sub_m(us[1], us[0]))?;
            let y = sub_m(w[0], mul_m(us[0], slope));
            if w[2] != add_m(y, mul_m(us[2], slope)) { return Some(false); }
            let tau = div_m(slope, (n - 1) as u64)?;
            let mut b = pr.clone()?;
            for m in (1..n).rev() { for j in 0..m { b[j] = add_m(mul_m(b[j], sub_m(1, tau)), mul_m(b[j + 1], tau)); } }
            Some(b[0] == y)
        })();
        let r = match got {
            Some(true) => Ok("squared distance to B(tau), by residues".to_string()),
            Some(false) if !at[0].open(*l) => Err("not the squared distance to a point of the curve".to_string()),
            _ => Err("cannot relate the candidate to a point of the curve".to_string()),
        };
        ck.ob(IN_UNIT, run, &format!("{} candidate {}", case, i), r);
    }
}
fn dist_rules(ck: &mut Ck, run: &Run, case: &str, f: &Facts, v: &Val, c: &[Vec<Tm>], q: &[Tm]) {
    let got = match num(v, &[]) { Ok(t) => t, Err(e) => { ck.ob("the distance is a number", run, case, Err(e)); return; } };
    let sq = match unroot(got, &mut HashMap::new()) { Some(t) => t, None => { ck.ob("the distance is the root of a squared distance", run, case, Err(format!("derived {}", cut(&show(got), 200)))); return; } };
    let (all, upper) = leaves(sq, &mut HashMap::new());
    let mut taus: BTreeMap<Tm, Option<Rat>> = BTreeMap::new();
    let mut memo = HashMap::new();
    for l in &all {
        let r: Rs = (|| {
            let r = f.nf(*l).ok_or("value without a normal form")?;
            let tau = dist_leaf(&r, c, q)?;
            taus.insert(*l, tau.as_const());
            if c.len() == 1 { return Ok("the only point of the curve".into()); }
            let iv = rf_itv(&tau, &mut memo);
            match (iv.lo, iv.hi) {
                (Some(lo), Some(hi)) if lo.sign() >= 0 && hi.le(&Rat::ONE) => Ok(format!("|q - B(tau)|^2 with tau = {} in [{}, {}]", cut(&show_rf(&tau), 60), lo, hi)),
                _ => Err(format!("parameter {} is not bounded by [0,1] (found [{}, {}])", cut(&show_rf(&tau), 200), iv.lo.map(|x| x.to_string()).unwrap_or("-inf".into()), iv.hi.map(|x| x.to_string()).unwrap_or("inf".into()))),
            }
        })();
        ck.ob(IN_UNIT, run, case, r);
    }
    let grid: BTreeSet<Rat> = upper.iter().filter_map(|l| taus.get(l).copied().flatten()).collect();
    let pointy = c.len() == 1 && upper.iter().any(|l| taus.contains_key(l));
    for i in 0..=64 {
        let r = Rat::new(i, 64);
        ck.ob(AT_64, run, &format!("{} i = {}", case, i), if pointy || grid.contains(&r) { Ok("candidate of the minimum".into()) } else { Err(format!("the curve point at parameter {}/64 is not among the candidates of the minimum", i)) });
    }
}
// ------------------------------------------------------------------ C10
pub fn chord_sum(p: &[Vec<Tm>]) -> Tm {
    let mut s: Option<Tm> = None;
    for i in 1..p.len() { let l = sqrt(dist2(&p[i], &p[i - 1])); s = Some(match s { None => l, Some(x) => add(x, l) }); }
    s.unwrap_or(ci(0))
}
/// numbers of steps around which the library could behave differently: every
/// integer literal of the library and the limits of the narrower number types
pub fn step_thresholds(ck: &Ck) -> Vec<usize> {
    let top = 70_000;
    let mut v = vec![];
    for l in crate::lints::literals() { v.extend([l - 1, l, l + 1]); }
    v.extend([127, 128, 129, 255, 256, 257, 1001, 1025, 4097]);
    if ck.thorough { v.extend([501, 513, 1000, 1024, 2001, 2049, 4096, 5001, 8193, 10_001, 16_385, 65_537]); }
    v.retain(|x| *x > 5 && *x <= top);
    // very many steps: only the last number before the limit and the first one after it
    v.retain(|x| *x <= 20_000 || (ck.thorough && *x == 65_537) || crate::lints::literals().iter().any(|l| *x == *l + 1));
    v.sort();
    v.dedup();
    v
}
pub fn c10(ck: &mut Ck) {
    let rule = "arc length = sum of the n chords between i/n and (i+1)/n";
    let mut list: Vec<(String, usize, usize)> = vec![];
    for (pm, d) in ck.dims() { list.push((format!("{}::quad_arclen", pm), 3, d)); list.push((format!("{}::cubic_arclen", pm), 4, d)); }
    for s in ck.beziers("b", "arclen") { let lim = if ck.thorough { 10 } else { 6 }; if s.n <= lim { list.push((format!("{}::arclen", s.m), s.n, s.d)); } }
    let one = |ck: &mut Ck, e: &str, n: usize, d: usize, m: usize| {
        // very many steps: only the last control point apart from the others, the chords stay short formulas and all differ
        let c = if m > 20_000 { (0..n).map(|j| vec![if j == n - 1 { var("u") } else { ci(0) }; d]).collect() } else { pts(n, d) };
        let run = ck.run(e, &format!("n = {}", m), vec![pv(&c), iv(m)], Facts::new());
        if run.outs.is_empty() { return; }
        let p: Vec<Vec<Tm>> = (0..=m).map(|i| bern_pt(&c, cr(Rat::new(i as i128, m as i128)))).collect();
        let w = chord_sum(&p);
        ck.expect(rule, &run, &|_, v| Ok(vec![("length".into(), num(v, &[])?, w)]));
    };
    for (e, n, d) in &list { for m in 1..=(if *d <= 2 { 5 } else { 3 }) { one(ck, e, *n, *d, m); } }
    let more: Vec<usize> = if ck.thorough { vec![6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 24, 31, 32, 33, 48, 64] } else { vec![6, 7, 8, 9, 10, 16] };
    let at = step_thresholds(ck);
    ck.softly(&mut |ck| {
        for (e, n, d) in &list {
            for m in &more {
                if (*d > 2 || *n > 4) && *m > (if ck.thorough { 16 } else { 8 }) { continue; }
                one(ck, e, *n, *d, *m);
            }
        }
    });
    ck.soft_s = if ck.thorough { 60 } else { 15 };
    ck.softly(&mut |ck| {
        for (e, n, d) in &list { if *d == 1 && *n >= 2 && *n <= 4 { for m in &at { if *m > 600 && !ck.thorough && !e.starts_with("p1::") { continue; } if *m <= 20_000 { one(ck, e, *n, *d, *m); } } } }
    });
    ck.soft_s = 400;
    ck.softly(&mut |ck| {
        for (e, n, d) in &list { if *d == 1 && *n >= 2 && *n <= 4 && e.starts_with("p1::") { for m in &at { if *m > 20_000 { one(ck, e, *n, *d, *m); } } } }
    });
    crate::long::c10_sizes(ck, if ck.thorough { 10 } else { 6 });
    crate::long::c10(ck);
}
// ------------------------------------------------------------------ C18
pub fn c18(ck: &mut Ck) {
    for d in 1..=139usize {
        let m = format!("v{}", d);
        if !ck.has(&format!("{}::add", m)) { continue; }
        let (a, b, s) = (pt("a", d), pt("b", d), var("s"));
        let e = |op: &str| format!("{}::{}", m, op);
        let per = |f: &dyn Fn(usize) -> Tm| -> Vec<Tm> { (0..d).map(|k| f(k)).collect() };
        for (op, rhs, want) in [
            ("add", fv(&b), per(&|k| add(a[k], b[k]))), ("sub", fv(&b), per(&|k| sub(a[k], b[k]))),
            ("mul", tv(s), per(&|k| mul(a[k], s))), ("adds", tv(s), per(&|k| add(a[k], s))), ("subs", tv(s), per(&|k| sub(a[k], s))),
        ] {
            let run = ck.run(&e(op), "", vec![fv(&a), rhs], Facts::new());
            ck.expect("operator acts coordinate by coordinate", &run, &|_, v| point_eq(v, &[], &want, "result"));
        }
        let all = (0..d).fold(ctrue(), |c, k| and(c, eq(a[k], b[k])));
        for (op, want) in [("eq", all), ("ne", not(all))] {
            let run = ck.run(&e(op), "", vec![fv(&a), fv(&b)], Facts::new());
            for (i, (f, v)) in run.outs.iter().enumerate() {
                let r: Rs = (|| cond_equiv(f, boolean(v)?, want, 24 + d as u32))();
                ck.ob("equal exactly when all coordinates are equal", &run, &format!("partition {}", i), r);
            }
            for k in 0..d {
                let mut a2 = a.clone();
                a2[k] = cf(f64::NAN);
                let run = ck.run(&e(op), &format!("{} = NaN", AX[k]), vec![fv(&a2), fv(&b)], Facts::new());
                for (i, (f, v)) in run.outs.iter().enumerate() {
                    let r: Rs = (|| cond_equiv(f, boolean(v)?, cb(op == "ne"), 24 + d as u32))();
                    ck.ob("a NaN coordinate is equal to nothing", &run, &format!("partition {}", i), r);
                }
                // one coordinate differs, the others are identical
                let mut b2 = a.clone();
                b2[k] = b[k];
                let run = ck.run(&e(op), &format!("only {} may differ", AX[k]), vec![fv(&a), fv(&b2)], Facts::new());
                let w = if op == "eq" { eq(a[k], b[k]) } else { not(eq(a[k], b[k])) };
                for (i, (f, v)) in run.outs.iter().enumerate() {
                    let r: Rs = (|| cond_equiv(f, boolean(v)?, w, 24 + d as u32))();
                    ck.ob("equal exactly when all coordinates are equal", &run, &format!("partition {}", i), r);
                }
            }
        }
        for k in std::iter::once(d).chain(0..d) {
            let mut a2 = a.clone();
            if k < d { a2[k] = cf(f64::NAN); }
            let run = ck.run(&e("same"), &if k < d { format!("{} = NaN", AX[k]) } else { String::new() }, vec![fv(&a2)], Facts::new());
            for (i, (f, v)) in run.outs.iter().enumerate() {
                let r: Rs = (|| { cond_equiv(f, boolean(at(v, &[0])?)?, cb(k == d), 24)?; cond_equiv(f, boolean(at(v, &[1])?)?, cb(k < d), 24) })();
                ck.ob(if k < d { "a NaN coordinate is equal to nothing" } else { "equal exactly when all coordinates are equal" }, &run, &format!("the same object, partition {}", i), r);
            }
        }
        for (op, args) in [("clone", vec![fv(&a)]), ("clone_from", vec![fv(&a), fv(&b)])] {
            let run = ck.run(&e(op), "", args, Facts::new());
            for (i, (f, v)) in run.outs.iter().enumerate() {
                let r: Rs = (|| { for k in 0..d { bits_same(f, num(v, &[k])?, a[k]).map_err(|e| format!("{}: {}", AX[k], e))?; } Ok("the same numbers".into()) })();
                ck.ob("a copy has the same coordinates", &run, &format!("partition {}", i), r);
            }
        }
        let run = ck.run(&e("default"), "", vec![], Facts::new());
        ck.expect("default is the zero vector", &run, &|_, v| point_eq(v, &[], &vec![ci(0); d], "default"));
        for k in 0..d {
            let run = ck.run(&e("axis"), &format!("axis {}", k), vec![fv(&a), iv(k)], Facts::new());
            ck.expect("axis(i) is the i-th coordinate", &run, &|_, v| Ok(vec![("value".into(), num(v, &[])?, a[k])]));
        }
        let run = ck.run(&e("dim"), "", vec![], Facts::new());
        for (_, v) in &run.outs { let r: Rs = (|| if int(v, &[])? == d as i128 { Ok(format!("DIM = {}", d)) } else { Err(format!("DIM = {}", int(v, &[])?)) })(); ck.ob("DIM is the number of coordinates", &run, "", r); }
        let run = ck.run(&e("sqlen"), "", vec![fv(&a)], Facts::new());
        let w = sum((0..d).map(|k| mul(a[k], a[k])));
        ck.expect("squared length is the sum of the squared coordinates", &run, &|_, v| Ok(vec![("value".into(), num(v, &[])?, w)]));
        let run = ck.run(&e("iter"), "", vec![fv(&a)], Facts::new());
        ck.expect("iteration yields the coordinates in order", &run, &|_, v| { cnt(v, &[0], d)?; point_eq(v, &[1], &a, "item") });
        let w = pt("w", d);
        let run = ck.run(&e("iter_mut"), "", vec![fv(&a), fv(&w)], Facts::new());
        ck.expect("mutable iteration visits each coordinate once and writes through", &run, &|_, v| { cnt(v, &[0], d)?; let mut o = point_eq(v, &[1], &a, "seen")?; o.extend(point_eq(v, &[2], &w, "written")?); Ok(o) });
    }
    ck.set_soft(false);
    crate::long::c18(ck);
}
fn cnt(v: &Val, p: &[usize], n: usize) -> Result<(), String> { let k = int(v, p)?; if k == n as i128 { Ok(()) } else { Err(format!("{} items instead of {}", k, n)) } }
// ------------------------------------------------------------------ C20
pub fn c20(ck: &mut Ck) {
    let tol = var("tol");
    let f0 = Facts::new().with_sign(tol, ZERO | POS);
    let rule_l = "linear <=> distinct ends and every inner control point within tol of the segment";
    let rule_p = "point <=> the required control-point distances are at most tol";
    for (pm, d) in ck.dims() {
        ck.set_soft(d > 8);
        for (nm, n, seg, op) in [("quad", 3usize, false, "is_linear"), ("cubic", 4, false, "is_linear"), ("seg2", 3, true, "is_linear"), ("seg3", 4, true, "is_linear"), ("seg2", 3, true, "is_linear32"), ("seg3", 4, true, "is_linear32")] {
            for (case, c) in if d <= 5 { vec![(String::new(), pts(n, d))] } else { vec![("first coordinate symbolic".to_string(), pts_one(n, d, 0, 0)), ("last coordinate symbolic".to_string(), pts_one(n, d, d - 1, 1))] } {
            let run = ck.run(&format!("{}::{}_{}", pm, nm, op), &case, vec![pv(&c), tv(tol)], f0.clone());
            let l2 = len2(&c[n - 1], &c[0]);
            for (i, (f, v)) in run.outs.iter().enumerate() {
                let r: Rs = (|| {
                    let got = boolean(v)?;
                    let mut s = String::new();
                    // end points closer than sqrt(EPSILON) may count as coinciding ("nearly the same")
                    let eps = cf(f64::EPSILON);
                    let cases = [f.assume(eq(l2, ci(0)), true), f.assume(lt(eps, l2), true)];
                    for g in cases {
                        if g.contradictory() { continue; }
                        let want = if g.cmp(l2, ci(0)) == ZERO { cfalse() } else {
                            (1..n - 1).fold(ctrue(), |w, j| and(w, le(seg_dist(&c[0], &c[n - 1], &c[j]), tol)))
                        };
                        s = cond_equiv(&g, got, want, 16)?;
                    }
                    Ok(s)
                })();
                ck.ob(rule_l, &run, &format!("partition {}", i), r);
            }
            }
            if seg { continue; }
            let c = pts(n, d);
            let run = ck.run(&format!("{}::{}_is_point", pm, nm), "", vec![pv(&c), tv(tol)], f0.clone());
            let within = |a: usize, b: usize| le(sqrt(dist2(&c[a], &c[b])), tol);
            let want = if n == 3 { and(within(0, 2), within(0, 1)) } else { and(and(within(0, 3), within(0, 1)), within(3, 2)) };
            for (i, (f, v)) in run.outs.iter().enumerate() {
                let r: Rs = (|| cond_equiv(f, boolean(v)?, want, 16))();
                ck.ob(rule_p, &run, &format!("partition {}", i), r);
            }
        }
        let c = pts(2, d);
        for op in ["is_linear", "is_linear32"] {
            let run = ck.run(&format!("{}::seg1_{}", pm, op), "", vec![pv(&c), tv(tol)], f0.clone());
            for (i, (f, v)) in run.outs.iter().enumerate() {
                let r: Rs = (|| cond_equiv(f, boolean(v)?, ctrue(), 16))();
                ck.ob("a line segment is always linear", &run, &format!("partition {}", i), r);
            }
        }
    }
}
// ------------------------------------------------------------------ C21
pub fn c21(ck: &mut Ck) {
    let rule = "control points pass through unchanged (same value number)";
    let copy = |ck: &mut Ck, run: &Run, f: &dyn Fn(&Val) -> Result<Vec<(String, Tm, Tm)>, String>| {
        for (i, (fa, v)) in run.outs.iter().enumerate() {
            match f(v) {
                Err(m) => ck.ob(rule, run, &format!("partition {}", i), Err(m)),
                Ok(l) => for (w, a, b) in l { let r = bits_same(fa, a, b); ck.ob(rule, run, &w, r); },
            }
        }
    };
    for (pm, d) in ck.dims() {
        ck.set_soft(d > 8);
        for (nm, n, seg) in [("line_ends", 2usize, 0), ("quad_cps", 3, 0), ("cubic_cps", 4, 0), ("seg1_conv", 2, 1), ("seg2_conv", 3, 2), ("seg3_conv", 4, 3)] {
            let c = pts(n, d);
            let run = ck.run(&format!("{}::{}", pm, nm), "", vec![pv(&c)], Facts::new());
            copy(ck, &run, &|v| if seg == 0 { points_eq(v, &[], &c, "control point") } else {
                if int(v, &[0])? != seg { return Err(format!("variant {} instead of {}", int(v, &[0])?, seg)); }
                points_eq(v, &[1], &c, "control point")
            });
        }
        for (nm, n) in [("quad", 3usize), ("cubic", 4), ("seg1", 2), ("seg2", 3), ("seg3", 4)] {
            let c = pts(n, d);
            let run = ck.run(&format!("{}::{}_baseline", pm, nm), "", vec![pv(&c)], Facts::new());
            copy(ck, &run, &|v| points_eq(v, &[], &[c[0].clone(), c[n - 1].clone()], "baseline"));
            if nm.starts_with("seg") {
                let run = ck.run(&format!("{}::{}_start", pm, nm), "", vec![pv(&c)], Facts::new());
                copy(ck, &run, &|v| point_eq(v, &[], &c[0], "start"));
                let run = ck.run(&format!("{}::{}_end", pm, nm), "", vec![pv(&c)], Facts::new());
                copy(ck, &run, &|v| point_eq(v, &[], &c[n - 1], "end"));
            }
        }
    }
    for s in ck.beziers("b", "cps") {
        ck.set_soft(s.n > 16 || s.d > 8);
        let c = pts(s.n, s.d);
        let w: Vec<Vec<Tm>> = (0..s.n).map(|i| (0..s.d).map(|k| var(&format!("W{}{}", i, AX[k]))).collect()).collect();
        let run = ck.run(&format!("{}::cps", s.m), "", vec![pv(&c)], Facts::new());
        copy(ck, &run, &|v| points_eq(v, &[], &c, "control point"));
        let run = ck.run(&format!("{}::iter", s.m), "", vec![pv(&c)], Facts::new());
        copy(ck, &run, &|v| { cnt(v, &[0], s.n)?; points_eq(v, &[1], &c, "item") });
        let run = ck.run(&format!("{}::iter_mut", s.m), "", vec![pv(&c), pv(&w)], Facts::new());
        copy(ck, &run, &|v| { cnt(v, &[0], s.n)?; let mut o = points_eq(v, &[1], &c, "seen")?; o.extend(points_eq(v, &[2], &w, "written")?); Ok(o) });
    }
    // a B-spline hands out the knots and control points it was given
    for (m, d, g, n) in ck.bsplines("s", "new") {
        ck.set_soft(n > 24 || d > 8);
        let c = pts(n, d);
        let ks: Vec<Tm> = (0..n + g + 1).map(|i| ci((i * (i + 1) / 2) as i128)).collect();
        let run = ck.run(&format!("{}::new", m), "increasing knots", vec![fv(&ks), pv(&c)], Facts::new());
        copy(ck, &run, &|v| {
            if int(v, &[0])? != 0 { return Err(format!("code {} for increasing knots", int(v, &[0])?)); }
            cnt(v, &[1], ks.len())?;
            cnt(v, &[3], n)?;
            let mut o = point_eq_named(v, &[2], &ks)?;
            o.extend(points_eq(v, &[4], &c, "control point")?);
            Ok(o)
        });
    }
    ck.set_soft(false);
    crate::long::copies(ck, rule, &["cps", "iter", "iter_mut"]);
}
fn point_eq_named(v: &Val, base: &[usize], ks: &[Tm]) -> Result<Vec<(String, Tm, Tm)>, String> {
    ks.iter().enumerate().map(|(i, k)| { let mut p = base.to_vec(); p.push(i); Ok((format!("knot {}", i), num(v, &p)?, *k)) }).collect()
}
// ------------------------------------------------------------------ C22
pub fn c22(ck: &mut Ck) {
    let t = var("t");
    // op, arguments after the control points, paths of the points in the result
    let mut list: Vec<(String, String, usize, usize, bool, Vec<Vec<usize>>)> = vec![];
    let rng = |pre: &[usize], n: usize| -> Vec<Vec<usize>> { (0..n).map(|i| { let mut p = pre.to_vec(); p.push(i); p }).collect() };
    for (pm, d) in ck.dims().iter().skip(1) {
        for (nm, n) in SPECIAL {
            list.push((format!("{}::{}_eval", pm, nm), format!("p1::{}_eval", nm), n, *d, true, vec![vec![]]));
            list.push((format!("{}::{}_split", pm, nm), format!("p1::{}_split", nm), n, *d, true, [rng(&[0], n), rng(&[1], n)].concat()));
            list.push((format!("{}::{}_deriv", pm, nm), format!("p1::{}_deriv", nm), n, *d, false, if n == 2 { vec![vec![]] } else { rng(&[], n - 1) }));
        }
        for nm in ["quad", "cubic"] { list.push((format!("{}::{}_casteljau", pm, nm), format!("p1::{}_casteljau", nm), if nm == "quad" { 3 } else { 4 }, *d, true, vec![vec![]])); }
    }
    for s in ck.beziers("b", "eval") {
        if s.pm == "p1" { continue; }
        list.push((format!("{}::eval", s.m), format!("p1_b{}::eval", s.n), s.n, s.d, true, vec![vec![]]));
        list.push((format!("{}::split", s.m), format!("p1_b{}::split", s.n), s.n, s.d, true, [rng(&[0], s.n), rng(&[1], s.n)].concat()));
    }
    for s in ck.beziers("bd", "deriv") { if s.pm != "p1" { list.push((format!("{}::deriv", s.m), format!("p1_bd{}::deriv", s.n), s.n, s.d, false, rng(&[1], s.n - 1))); } }
    let rule = "coordinate k = the one-dimensional operation on coordinate k";
    for (e, e1, n, d, has_t, paths) in list {
        ck.set_soft(n > 16 || d > 8);
        let c = pts(n, d);
        let args = |c: &Vec<Vec<Tm>>| if has_t { vec![pv(c), tv(t)] } else { vec![pv(c)] };
        let run = ck.run(&e, "", args(&c), Facts::new());
        for (i, (f, v)) in run.outs.iter().enumerate() {
            for k in 0..d {
                let ck1: Vec<Vec<Tm>> = c.iter().map(|p| vec![p[k]]).collect();
                let one = ck.run(&e1, &format!("coordinate {}", AX[k]), args(&ck1), f.clone());
                for (g, w) in &one.outs {
                    for p in &paths {
                        let r: Rs = (|| { let mut pk = p.clone(); pk.push(k); let mut p0 = p.clone(); p0.push(0); same(g, num(v, &pk)?, num(w, &p0)?, 8) })();
                        ck.ob(rule, &run, &format!("{:?} {} partition {}", p, AX[k], i), r);
                    }
                }
            }
        }
    }
    ck.set_soft(false);
    // bounding boxes: the other coordinates fixed to two different sets of constants
    for (pm, d) in ck.dims().iter().skip(1) { for (nm, n) in SPECIAL { for k in 0..*d { ck.set_soft(*d > 8); ck.it.max_parts = 20_000; for s in 0..(if ck.thorough { 3 } else if *d > 8 { 1 } else { 2 }) {
        let c = pts_one(n, *d, k, s);
        let run = ck.run(&format!("{}::{}_bbox", pm, nm), &format!("coordinate {} symbolic, others fixed ({})", AX[k], s), vec![pv(&c)], Facts::new());
        for (i, (f, v)) in run.outs.iter().enumerate() {
            let r: Rs = (|| if int(v, &[0])? == *d as i128 { Ok(format!("{} intervals", d)) } else { Err(format!("{} intervals for {} dimensions", int(v, &[0])?, d)) })();
            ck.ob("one interval per dimension", &run, &format!("partition {}", i), r);
            let ck1: Vec<Vec<Tm>> = c.iter().map(|p| vec![p[k]]).collect();
            let one = ck.run(&format!("p1::{}_bbox", nm), &format!("coordinate {}", AX[k]), vec![pv(&ck1)], f.clone());
            for (g, w) in &one.outs { for b in 0..2 {
                let r: Rs = (|| same(g, num(v, &[1, k, b])?, num(w, &[1, 0, b])?, 8))();
                ck.ob(rule, &run, &format!("bound {} {} partition {}", b, AX[k], i), r);
            } }
        }
    } } } }
    ck.set_soft(false);
    crate::long::c22(ck);
}
// ------------------------------------------------------------------ C23
fn weights(f: &Facts, x: Tm, at: &[Atom]) -> Result<Vec<RatFn>, String> {
    let r = f.nf(x).ok_or("value without a normal form")?;
    let at: Vec<Atom> = at.to_vec();
    linear_in(&r, &at)
}
fn sum_is(w: &[RatFn], v: i128) -> Rs {
    let mut s = RatFn::zero();
    for x in w { s = s.add(x); }
    if s.eq(&RatFn::constant(Rat::int(v))) { Ok(format!("{} weights sum to {}", w.len(), v)) } else { Err(format!("weights sum to {} instead of {}", cut(&show_rf(&s), 200), v)) }
}
/// non-negative for t in [0,1]: Bernstein coefficients of the weight (after degree elevation) are non-negative
fn nonneg01(f: &Facts, w: &RatFn, t: Atom) -> Rs {
    if let Some(c) = w.as_const() { return if c.sign() >= 0 { Ok(format!("constant {}", c)) } else { Err(format!("weight {}", c)) }; }
    let s = f.sign(w, 2);
    if s & NEG == 0 { return Ok("non-negative on this path".into()); }
    if !w.den.is_empty() || w.atoms() != vec![t] { return Err(format!("weight {} is not shown to be non-negative", cut(&show_rf(w), 200))); }
    let (l, h) = f.var_bounds(t);
    let l = l.map(|x| x.0.max(Rat::ZERO)).unwrap_or(Rat::ZERO);
    let h = h.map(|x| x.0.min(Rat::ONE)).unwrap_or(Rat::ONE);
    let cs: Vec<Rat> = w.num.coeffs_in(t).iter().map(|c| c.as_const().unwrap()).collect();
    for extra in [0usize, 4, 12] {
        let mut c2 = cs.clone();
        c2.resize(cs.len() + extra, Rat::ZERO);
        let b = bernstein_coeffs(&c2, l, h);
        if b.iter().all(|x| x.sign() >= 0) { return Ok(format!("Bernstein coefficients {:?}", &b[..b.len().min(6)])); }
    }
    Err(format!("weight {} is negative somewhere on [0,1]", cut(&show_rf(w), 200)))
}
pub fn c23(ck: &mut Ck) {
    let t = var("t");
    let ta = atom_of(t).unwrap();
    let mut list: Vec<(String, usize, usize, bool, Vec<Vec<usize>>, i128)> = vec![];
    let rng = |pre: &[usize], n: usize| -> Vec<Vec<usize>> { (0..n).map(|i| { let mut p = pre.to_vec(); p.push(i); p }).collect() };
    for (pm, d) in ck.dims() {
        for (nm, n) in SPECIAL {
            list.push((format!("{}::{}_eval", pm, nm), n, d, true, vec![vec![]], 1));
            list.push((format!("{}::{}_split", pm, nm), n, d, true, [rng(&[0], n), rng(&[1], n)].concat(), 1));
            list.push((format!("{}::{}_deriv", pm, nm), n, d, false, if n == 2 { vec![vec![]] } else { rng(&[], n - 1) }, 0));
        }
        for nm in ["quad", "cubic"] { list.push((format!("{}::{}_casteljau", pm, nm), if nm == "quad" { 3 } else { 4 }, d, true, vec![vec![]], 1)); }
        for k in 1..=3 { for op in ["eval", "eval32"] { list.push((format!("{}::seg{}_{}", pm, k, op), k + 1, d, true, vec![vec![]], 1)); } }
    }
    for s in ck.beziers("b", "eval") {
        list.push((format!("{}::eval", s.m), s.n, s.d, true, vec![vec![]], 1));
        if s.n <= 25 { list.push((format!("{}::split", s.m), s.n, s.d, true, [rng(&[0], s.n), rng(&[1], s.n)].concat(), 1)); }
    }
    for s in ck.beziers("bd", "deriv") { list.push((format!("{}::deriv", s.m), s.n, s.d, false, rng(&[1], s.n - 1), 0)); }
    for (e, n, d, has_t, paths, total) in list {
        ck.set_soft(n > 16 || d > 8);
        let c = pts(n, d);
        let run = ck.run(&e, "", if has_t { vec![pv(&c), tv(t)] } else { vec![pv(&c)] }, Facts::new());
        for (i, (f, v)) in run.outs.iter().enumerate() { for p in &paths { for k in 0..d {
            let at: Vec<Atom> = c.iter().map(|x| atom_of(x[k]).unwrap()).collect();
            let mut pk = p.clone();
            pk.push(k);
            let w = (|| weights(f, num(v, &pk)?, &at))();
            let case = format!("{:?} {} partition {}", p, AX[k], i);
            let w = match w { Ok(w) => w, Err(m) => { ck.ob("combination of the control points", &run, &case, Err(m)); continue; } };
            ck.ob(if total == 1 { "weights sum to one" } else { "weights sum to zero" }, &run, &case, sum_is(&w, total));
            if total == 1 && n <= 34 { for (j, x) in w.iter().enumerate() { let r = nonneg01(f, x, ta); ck.ob("weights are non-negative on [0,1]", &run, &format!("{} weight {}", case, j), r); } }
        } } }
    }
    ck.set_soft(false);
    crate::spline::c23(ck);
    crate::long::c23(ck);
}
// ------------------------------------------------------------------ C24
pub fn c24(ck: &mut Ck) {
    let mut list: Vec<(String, usize, usize, Vec<i128>)> = vec![];
    for (pm, d) in ck.dims() {
        list.push((format!("{}::line_eval", pm), 2, d, vec![0]));
        for (nm, n) in [("quad", 3), ("cubic", 4)] {
            list.push((format!("{}::{}_eval", pm, nm), n, d, vec![0, 1]));
            list.push((format!("{}::{}_casteljau", pm, nm), n, d, vec![0]));
        }
        list.push((format!("{}::seg1_eval", pm), 2, d, vec![0]));
        for k in 2..=3 { for op in ["eval", "eval32"] { list.push((format!("{}::seg{}_{}", pm, k, op), k + 1, d, vec![0, 1])); } }
    }
    for op in ["eval", "spline_eval"] { for s in ck.beziers("b", op) { list.push((format!("{}::{}", s.m, op), s.n, s.d, vec![0, 1])); } }
    for (e, n, d, ts) in list { for tval in ts {
        ck.set_soft(n > 16 || d > 8);
        let c = pts(n, d);
        let run = ck.run(&e, &format!("t = {}", tval), vec![pv(&c), tv(ci(tval))], Facts::new());
        let w = &c[if tval == 0 { 0 } else { n - 1 }];
        for (i, (f, v)) in run.outs.iter().enumerate() { for k in 0..d {
            let r: Rs = (|| exact_same(f, num(v, &[k])?, w[k]))();
            ck.ob("exact end point", &run, &format!("{} partition {}", AX[k], i), r);
        } }
    } }
    ck.set_soft(false);
    crate::spline::c24(ck);
    crate::long::c24(ck);
}
pub fn exact_same(f: &Facts, got: Tm, want: Tm) -> Rs {
    if f.contradictory() { return Ok("infeasible".into()); }
    let x = exact(got, &mut HashMap::new());
    if x == want { return Ok(format!("rewrites exactly to {}", show(want))); }
    let y = exact(resolve(x, f, &mut HashMap::new()), &mut HashMap::new());
    if y == want { return Ok(format!("rewrites exactly to {}", show(want))); }
    if let (Some(a), true) = (atom_of(want), true) { let _ = a; }
    Err(format!("not exactly {}: {}; path condition: {}", show(want), cut(&show_d(y, 12), 300), path(f)))
}

// ------------------------------------------------------------------ C28
pub fn c28(ck: &mut Ck) {
    let rule = "equal exactly when all control points are equal";
    let both = |f: &Facts, v: &Val, want: Cd, depth: u32| -> Rs {
        cond_equiv(f, boolean(at(v, &[0])?)?, want, depth).map_err(|e| format!("==: {}", e))?;
        cond_equiv(f, boolean(at(v, &[1])?)?, not(want), depth).map_err(|e| format!("!=: {}", e))
    };
    for (pm, d) in ck.dims() {
        ck.set_soft(d > 8);
        for (nm, n) in [("line", 2usize), ("quad", 3), ("cubic", 4), ("seg1", 2), ("seg2", 3), ("seg3", 4)] {
            let e = format!("{}::{}_eq", pm, nm);
            let a = pts(n, d);
            let b: Vec<Vec<Tm>> = (0..n).map(|i| (0..d).map(|k| var(&format!("Q{}{}", i, AX[k]))).collect()).collect();
            let depth = 24 + (n * d) as u32;
            if n * d <= 32 {
                let all = (0..n * d).fold(ctrue(), |c, j| and(c, eq(a[j / d][j % d], b[j / d][j % d])));
                let run = ck.run(&e, "", vec![pv(&a), pv(&b)], Facts::new());
                for (i, (f, v)) in run.outs.iter().enumerate() { let r = both(f, v, all, depth); ck.ob(rule, &run, &format!("partition {}", i), r); }
            }
            for i in 0..n { for k in 0..d {
                let mut b2 = a.clone();
                b2[i][k] = b[i][k];
                let run = ck.run(&e, &format!("only {} of point {} may differ", AX[k], i), vec![pv(&a), pv(&b2)], Facts::new());
                for (j, (f, v)) in run.outs.iter().enumerate() { let r = both(f, v, eq(a[i][k], b[i][k]), depth); ck.ob(rule, &run, &format!("partition {}", j), r); }
                let mut a2 = a.clone();
                a2[i][k] = cf(f64::NAN);
                for (case, x, y) in [("left", &a2, &b), ("right", &b, &a2), ("both", &a2, &a2)] {
                    let run = ck.run(&e, &format!("{} of point {} = NaN on the {}", AX[k], i, case), vec![pv(x), pv(y)], Facts::new());
                    for (j, (f, v)) in run.outs.iter().enumerate() { let r = both(f, v, cfalse(), depth); ck.ob("a NaN coordinate is equal to nothing", &run, &format!("partition {}", j), r); }
                }
            } }
            // one object compared with itself
            for j in std::iter::once(n * d).chain(0..n * d) {
                let mut a2 = a.clone();
                let nan = j < n * d;
                if nan { a2[j / d][j % d] = cf(f64::NAN); }
                let run = ck.run(&format!("{}::{}_same", pm, nm), &if nan { format!("{} of point {} = NaN", AX[j % d], j / d) } else { String::new() }, vec![pv(&a2)], Facts::new());
                for (i, (f, v)) in run.outs.iter().enumerate() { let r = both(f, v, cb(!nan), depth); ck.ob(if nan { "a NaN coordinate is equal to nothing" } else { rule }, &run, &format!("the same object, partition {}", i), r); }
            }
            // copies
            let seg = nm.starts_with("seg");
            let mut todo = vec![("clone", String::new(), vec![pv(&a)])];
            if !seg { todo.push(("clone_from", String::new(), vec![pv(&a), pv(&b)])); }
            else { for k in 1..=3 { todo.push(("clone_from", format!("over a segment of kind {}", k), vec![pv(&a), pv(&(0..4).map(|i| pt(&format!("Q{}", i), d)).collect::<Vec<_>>()), iv(k)])); } }
            for (op, case, args) in todo {
                let run = ck.run(&format!("{}::{}_{}", pm, nm, op), &case, args, Facts::new());
                for (i, (f, v)) in run.outs.iter().enumerate() {
                    let r: Rs = (|| {
                        if seg && int(v, &[0])? != n as i128 - 1 { return Err(format!("the clone has variant {} instead of {}", int(v, &[0])?, n - 1)); }
                        for (w, x, y) in points_eq(v, if seg { &[1] } else { &[] }, &a, "control point")? { bits_same(f, x, y).map_err(|e| format!("{}: {}", w, e))?; }
                        Ok("same numbers".into())
                    })();
                    ck.ob("a clone carries the same numbers and evaluates alike", &run, &format!("partition {}", i), r);
                }
            }
        }
        let (a, b, c) = (pts(2, d), pts(3, d), pts(4, d));
        let run = ck.run(&format!("{}::seg_kinds", pm), "", vec![pv(&a), pv(&b), pv(&c)], Facts::new());
        for (i, (f, v)) in run.outs.iter().enumerate() {
            for j in 0..6 { let r: Rs = (|| both(f, at(v, &[j])?, cfalse(), 24))(); ck.ob("segments of different kinds are not equal", &run, &format!("pair {} partition {}", j, i), r); }
        }
    }
    for s in ck.beziers("b", "clone") {
        ck.set_soft(s.n > 16 || s.d > 8);
        let c = pts(s.n, s.d);
        let o: Vec<Vec<Tm>> = (0..s.n).map(|i| pt(&format!("Q{}", i), s.d)).collect();
        for (op, args) in [("clone", vec![pv(&c)]), ("clone_from", vec![pv(&c), pv(&o)])] {
            let run = ck.run(&format!("{}::{}", s.m, op), "", args, Facts::new());
            for (i, (f, v)) in run.outs.iter().enumerate() {
                let r: Rs = (|| { for (w, x, y) in points_eq(v, &[], &c, "control point")? { bits_same(f, x, y).map_err(|e| format!("{}: {}", w, e))?; } Ok("same numbers".into()) })();
                ck.ob("a clone carries the same numbers and evaluates alike", &run, &format!("partition {}", i), r);
            }
        }
    }
    ck.set_soft(false);
    crate::spline::c28(ck);
    crate::long::copies(ck, "a clone carries the same numbers and evaluates alike", &["clone", "clone_from"]);
}
// ------------------------------------------------------------------ C29
pub fn c29(ck: &mut Ck) {
    let t = var("t");
    let beyond = |d: usize| vec![d, d + 1, d + 2, 2 * d, 2 * d + 1, 3 * d, 8, 16, 64, 255, 256, 257, 256 + d, (1 << 16) + d - 1, (1 << 32), (1usize << 32) + d - 1, 1 << 63, usize::MAX - 1, usize::MAX].into_iter().filter(move |k| *k >= d);
    for (pm, d) in ck.dims() {
        ck.set_soft(d > 8);
        for (op, n) in [("line_axis", 2), ("quad_axis", 3), ("cubic_axis", 4), ("quad_dd", 3), ("cubic_dd", 4)] {
            let mut ks: Vec<usize> = beyond(d).collect();
            ks.sort();
            ks.dedup();
            for k in ks { ck.must_panic("an axis the points do not have is never sampled", &format!("{}::{}", pm, op), &format!("axis {}", k), vec![pv(&pts(n, d)), tv(t), iv(k)]); }
        }
    }
    for d in 1..=139usize {
        let e = format!("v{}::axis", d);
        if !ck.has(&e) { continue; }
        let mut ks: Vec<usize> = beyond(d).collect();
        ks.sort();
        ks.dedup();
        for k in ks { ck.must_panic("a point has no coordinate beyond its dimension", &e, &format!("axis {}", k), vec![fv(&pt("a", d)), iv(k)]); }
    }
    ck.set_soft(false);
}

// ------------------------------------------------------------------ C32
pub fn c32(ck: &mut Ck) {
    let t = var("t");
    let u = sub(ci(1), t);
    let (rule, half) = ("reversed control points give the same curve backwards", "the parts of a reversed curve are the reversed parts");
    let mut list: Vec<(String, String, usize, usize, bool)> = vec![];
    for (pm, d) in ck.dims() {
        for (nm, n) in [("line", 2usize), ("quad", 3), ("cubic", 4)] { for ev in ["eval", "casteljau"] {
            let e = format!("{}::{}_{}", pm, nm, ev);
            if ck.has(&e) { list.push((e, format!("{}::{}_split", pm, nm), n, d, ev == "eval")); }
        } }
        for n in 2..=4usize { list.push((format!("{}::seg{}_eval", pm, n - 1), String::new(), n, d, false)); }
    }
    for s in ck.beziers("b", "eval") { list.push((format!("{}::eval", s.m), format!("{}::split", s.m), s.n, s.d, true)); }
    for (ev, sp, n, d, with_split) in list {
        if !ck.has(&ev) { continue; }
        ck.set_soft(d > 8 || n > 16);
        let c = pts(n, d);
        let r: Vec<Vec<Tm>> = c.iter().rev().cloned().collect();
        let run = ck.run(&ev, "", vec![pv(&r), tv(u)], Facts::new());
        let w = bern_pt(&c, t);
        ck.expect(rule, &run, &|_, v| point_eq(v, &[], &w, "point"));
        if !with_split || !ck.has(&sp) { continue; }
        let run = ck.run(&sp, "", vec![pv(&r), tv(u)], Facts::new());
        // control values of the parts: blossoms
        let (left, right): (Vec<Vec<Tm>>, Vec<Vec<Tm>>) = ((0..n).map(|i| bern_pt(&c[..=i], t)).collect(), (0..n).map(|i| bern_pt(&c[i..], t)).collect());
        let (l, rr): (Vec<Vec<Tm>>, Vec<Vec<Tm>>) = (right.into_iter().rev().collect(), left.into_iter().rev().collect());
        ck.expect(half, &run, &|_, v| { let mut o = points_eq(v, &[0], &l, "left")?; o.extend(points_eq(v, &[1], &rr, "right")?); Ok(o) });
    }
    ck.set_soft(false);
    crate::spline::c32(ck);
    crate::long::c32(ck);
}
