//! B-spline rules.  Knot vectors are abstracted by order cells: which knots
//! coincide, with symbolic positive gaps between the distinct values; the
//! parameter is placed at a knot, strictly inside a gap, or outside.  The
//! cells cover every non-decreasing knot vector of the shape.
use crate::ck::*;
use crate::poly::*;
use crate::rat::*;
use crate::term::*;
use crate::value::*;

#[derive(Clone)]
pub struct Cell { pub mult: Vec<usize>, pub k: Vec<Tm>, pub grp: Vec<usize>, pub v: Vec<Tm>, pub facts: Facts, pub split: Option<(usize, Tm)> }
/// a multiplicity pattern with symbolic gaps, or with one of the listed rational spacings
#[derive(Clone)]
pub struct Shape { pub mult: Vec<usize>, pub gaps: Option<usize> }
impl Shape {
    pub fn name(&self) -> String { match self.gaps { None => mname(&self.mult), Some(s) => format!("{} spacing {}{}", mname(&self.mult), s % 3, ["", " times 2^-27", " times 2^-60", " times 2^20"][s / 3]) } }
    /// concrete spacings at another scale than 1: everything is concrete, the parameter too
    pub fn scaled(&self) -> bool { self.gaps.map_or(false, |s| s >= 3) }
    fn gap(&self, j: usize) -> Option<Rat> { self.gaps.map(|s| Rat::int(GAPS[s % 3][j % 11]).mul(match s / 3 { 0 => Rat::ONE, 1 => Rat::new(1, 1 << 27), 2 => Rat::new(1, 1 << 60), _ => Rat::int(1 << 20) })) }
}
/// knot vectors whose spans are far from unit length: absolute tolerances must not matter
pub fn scaled_shapes(ck: &Ck, d: usize, g: usize, c: usize) -> Vec<Shape> {
    let kn = g + c + 1;
    if d > 1 && !ck.thorough { return vec![]; }
    let mut out = vec![];
    if kn > 28 { return out; }
    if kn <= (if ck.thorough { 9 } else { 6 }) {
        for (i, m) in compositions(kn).into_iter().enumerate() { for s in 1..4 { out.push(Shape { mult: m.clone(), gaps: Some(3 * s + i % 3) }); } }
    } else {
        for s in 1..4 {
            let mut m = vec![g + 1];
            m.extend(vec![1; kn - 2 * (g + 1)]);
            m.push(g + 1);
            out.push(Shape { mult: m, gaps: Some(3 * s + 1) });
            out.push(Shape { mult: vec![1; kn], gaps: Some(3 * s + 2) });
        }
    }
    out
}
/// gap j lies between distinct values j and j+1; a split gap is x + y
fn cell(sh: &Shape, split: Option<usize>) -> Cell {
    let mult = &sh.mult;
    let mut facts = Facts::new();
    let mut v = vec![if sh.scaled() { ci(0) } else if sh.gaps.is_some() { ci(-1) } else { var("k0") }];
    let mut sp = None;
    for j in 0..mult.len() - 1 {
        let last = v[j];
        if split == Some(j) {
            let (x, y) = (var("x"), var("y"));
            facts = facts.with_sign(x, POS).with_sign(y, POS);
            let m = add(last, x);
            sp = Some((j, m));
            v.push(add(m, y));
        } else if let Some(g) = sh.gap(j) {
            v.push(add(last, cr(g)));
        } else {
            let g = var(&format!("g{}", j));
            facts = facts.with_sign(g, POS);
            v.push(add(last, g));
        }
    }
    let (mut k, mut grp) = (vec![], vec![]);
    for (j, m) in mult.iter().enumerate() { for _ in 0..*m { k.push(v[j]); grp.push(j); } }
    Cell { mult: mult.to_vec(), k, grp, v, facts, split: sp }
}
/// small knot vectors: every order cell, gaps symbolic; larger ones: selected
/// order cells (clamped, nearly clamped and unclamped ends, simple, double
/// and full interior knots at every place), gaps rational
pub fn shapes(ck: &Ck, g: usize, c: usize, lim: usize, fine_too: bool) -> Vec<Shape> {
    let kn = g + c + 1;
    let mut out: Vec<Shape> = vec![];
    if kn <= lim {
        for m in compositions(kn) {
            let fine = fine_too && too_fine(g, &m);
            out.push(Shape { mult: m, gaps: if fine { Some(1) } else { None } });
        }
        return out;
    }
    if kn > 28 {
        // long knot vectors: clamped and uniform
        let mut m = vec![g + 1];
        m.extend(vec![1; kn - 2 * (g + 1)]);
        m.push(g + 1);
        return [m, vec![1; kn]].into_iter().enumerate().map(|(i, mult)| Shape { mult, gaps: Some(i) }).collect();
    }
    let mut seen: Vec<Vec<usize>> = vec![];
    let ends: Vec<Vec<usize>> = vec![vec![g + 1], vec![g.max(1), 1], vec![1; g + 1], vec![1, g.max(1)], vec![g + 2], vec![2; (g + 1) / 2 + 1]];
    for (fi, f) in ends.iter().enumerate() { for (bi, b) in ends.iter().enumerate() {
        let used: usize = f.iter().sum::<usize>() + b.iter().sum::<usize>();
        if used > kn { continue; }
        let r = kn - used;
        let mut inner: Vec<Vec<usize>> = vec![vec![1; r]];
        let mut at = |w: usize, places: &[usize]| for p in places { if w >= 2 && r >= w && *p <= r - w { let mut v = vec![1; *p]; v.push(w); v.extend(vec![1; r - w - p]); inner.push(v); } };
        let every: Vec<usize> = (0..r).collect();
        let some: Vec<usize> = vec![0, r / 2, r.saturating_sub(2)];
        let main = fi == 0 && bi == 0;
        if main || ck.thorough { at(2, &every); at(g, &every); at(g + 1, &some); at(g + 2, &some); } else { at(2, &some); at(g, &some); }
        let mut v = vec![2; r / 2];
        if r % 2 == 1 { v.push(1); }
        inner.push(v);
        for i in inner {
            let mut m = f.clone();
            m.extend(i);
            m.extend(b.iter().rev());
            if !seen.contains(&m) { seen.push(m); }
        }
    } }
    for (i, m) in seen.into_iter().enumerate() {
        if ck.thorough { for s in 0..3 { out.push(Shape { mult: m.clone(), gaps: Some(s) }); } } else { out.push(Shape { mult: m, gaps: Some(i % 3) }); }
    }
    out
}
pub fn compositions(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]]; }
    let mut out = vec![];
    for first in 1..=n { for mut rest in compositions(n - first) { rest.insert(0, first); out.push(rest); } }
    out
}
/// where the parameter is: (description, cell, t, position in units of half gaps: 2j = at value j, 2j+1 = inside gap j, -1 below, 2g above)
pub struct Pos { pub name: String, pub cell: Cell, pub t: Tm, pub ord: i64 }
pub fn positions(sh: &Shape) -> Vec<Pos> {
    let g = sh.mult.len();
    let mut out = vec![];
    let base = cell(sh, None);
    for j in 0..g { out.push(Pos { name: format!("t = knot value {}", j), cell: base.clone(), t: base.v[j], ord: 2 * j as i64 }); }
    if sh.scaled() {
        for j in 0..g - 1 { let w = sh.gap(j).unwrap(); for q in [Rat::new(1, 4), Rat::new(5, 8)] { out.push(Pos { name: format!("t inside gap {} at {}", j, q), cell: base.clone(), t: add(base.v[j], cr(w.mul(q))), ord: 2 * j as i64 + 1 }); } }
        let w = sh.gap(0).unwrap();
        out.push(Pos { name: "t below all knots".into(), t: sub(base.v[0], cr(w)), cell: base.clone(), ord: -1 });
        out.push(Pos { name: "t above all knots".into(), t: add(base.v[g - 1], cr(w)), cell: base.clone(), ord: 2 * g as i64 - 1 });
        return out;
    }
    for j in 0..g - 1 { let c = cell(sh, Some(j)); let t = c.split.unwrap().1; out.push(Pos { name: format!("t inside gap {}", j), cell: c, t, ord: 2 * j as i64 + 1 }); }
    let x = var("x");
    let mut lo = base.clone();
    lo.facts = lo.facts.with_sign(x, POS);
    out.push(Pos { name: "t below all knots".into(), t: sub(lo.v[0], x), cell: lo.clone(), ord: -1 });
    out.push(Pos { name: "t above all knots".into(), t: add(lo.v[g - 1], x), cell: lo, ord: 2 * g as i64 - 1 });
    out
}
/// index of the non-empty span used at ord (right-continuous; left limit at the end of the domain)
pub fn span(c: &Cell, deg: usize, ncp: usize, ord: i64) -> usize {
    let end = 2 * c.grp[ncp] as i64;
    let mut s = deg;
    for i in deg..ncp {
        let o = 2 * c.grp[i] as i64;
        if (ord >= end && o < end) || (ord < end && o <= ord) { s = i; }
    }
    s
}
/// Cox-de Boor basis functions of degree p at t in span s, indices 0..K-p-1
pub fn basis(c: &Cell, p: usize, s: usize, t: Tm) -> Vec<Option<Tm>> {
    let kn = c.k.len();
    let mut n: Vec<Option<Tm>> = (0..kn - 1).map(|i| if i == s { Some(ci(1)) } else { None }).collect();
    for q in 1..=p {
        let mut m = vec![];
        for i in 0..kn - 1 - q {
            let mut acc: Option<Tm> = None;
            if let (Some(x), true) = (n[i], c.grp[i + q] != c.grp[i]) {
                acc = Some(mul(div(sub(t, c.k[i]), sub(c.k[i + q], c.k[i])), x));
            }
            if let (Some(x), true) = (n[i + 1], c.grp[i + q + 1] != c.grp[i + 1]) {
                let y = mul(div(sub(c.k[i + q + 1], t), sub(c.k[i + q + 1], c.k[i + 1])), x);
                acc = Some(match acc { None => y, Some(a) => add(a, y) });
            }
            m.push(acc);
        }
        n = m;
    }
    n
}
pub fn combine(w: &[Option<Tm>], p: &[Tm]) -> Tm {
    sum(w.iter().zip(p).filter_map(|(w, p)| w.map(|w| mul(w, *p))))
}
/// the smooth enough cells: interior multiplicity at most max(degree,1), degree+1 at the domain ends, non-empty domain
fn regular(c: &Cell, deg: usize, ncp: usize) -> bool {
    let (a, b) = (c.grp[deg], c.grp[ncp]);
    a < b && c.mult[a] <= deg + 1 && c.mult[b] <= deg + 1 && (a + 1..b).all(|j| c.mult[j] <= deg.max(1))
}
pub fn in_domain(c: &Cell, deg: usize, ncp: usize, ord: i64) -> bool { ord >= 2 * c.grp[deg] as i64 && ord <= 2 * c.grp[ncp] as i64 }
fn mname(m: &[usize]) -> String { format!("knot multiplicities {:?}", m) }
fn fk(k: &[Tm]) -> Val { fv(k) }

/// degree 5 with (almost) all knots distinct: the normal forms get too large to compare (the derivative has degree 4)
fn too_fine(g: usize, mult: &[usize]) -> bool { g >= 5 && mult.len() > 6 }
fn limit(ck: &Ck, d: usize) -> usize { if ck.thorough { match d { 1 => 12, 2 => 9, _ => 7 } } else { match d { 1 => 9, 2 => 7, _ => 6 } } }

// ------------------------------------------------------------------ C11
pub fn c11(ck: &mut Ck) {
    let all = ck.bsplines("s", "new");
    for (m, d, g, c) in all {
        let kn = c + g + 1;
        let cps = pts(c, d);
        let e = format!("{}::new", m);
        let stored = |v: &Val, ks: &[Tm]| -> Result<Vec<(String, Tm, Tm)>, String> {
            if int(v, &[1])? != kn as i128 { return Err(format!("{} stored knots instead of {}", int(v, &[1])?, kn)); }
            if int(v, &[3])? != c as i128 { return Err(format!("{} stored control points instead of {}", int(v, &[3])?, c)); }
            let mut o = vec![];
            for i in 0..kn { o.push((format!("knot {}", i), num(v, &[2, i])?, ks[i])); }
            for i in 0..c { for k in 0..d { o.push((format!("control point {}.{}", i, AX[k]), num(v, &[4, i, k])?, cps[i][k])); } }
            Ok(o)
        };
        // fully symbolic knots: acceptance must be equivalent to k_i <= k_{i+1} for all i
        if d == 1 || ck.thorough || kn <= 6 {
            let ks: Vec<Tm> = (0..kn).map(|i| var(&format!("k{}", i))).collect();
            let run = ck.run(&e, "symbolic knots", vec![fk(&ks), pv(&cps)], Facts::new());
            let sorted = (0..kn - 1).fold(ctrue(), |x, i| and(x, le(ks[i], ks[i + 1])));
            for (i, (f, v)) in run.outs.iter().enumerate() {
                let r: Rs = (|| {
                    let code = int(v, &[0])?;
                    match code { 0 => cond_equiv(f, ctrue(), sorted, 24 + kn as u32), 4 => cond_equiv(f, cfalse(), sorted, 24 + kn as u32), x => Err(format!("constructor returned code {} for a valid shape", x)) }
                })();
                ck.ob("accepted <=> knots non-decreasing", &run, &format!("partition {}", i), r);
                if int(v, &[0]) == Ok(0) {
                    match stored(v, &ks) {
                        Err(x) => ck.ob("stores the given knots and control points in order", &run, "", Err(x)),
                        Ok(l) => for (w, a, b) in l { let r = bits_same(f, a, b); ck.ob("stores the given knots and control points in order", &run, &w, r); },
                    }
                }
            }
            // knots NaN at each position
            for p in 0..kn {
                let mut k2 = ks.clone();
                k2[p] = cf(f64::NAN);
                let run = ck.run(&e, &format!("knot {} = NaN", p), vec![fk(&k2), pv(&cps)], Facts::new());
                for (i, (_, v)) in run.outs.iter().enumerate() {
                    let r: Rs = (|| match int(v, &[0])? { 4 => Ok("decreasing-knots error".into()), x => Err(format!("code {} for a NaN knot", x)) })();
                    ck.ob("a NaN knot is rejected as decreasing", &run, &format!("partition {}", i), r);
                }
            }
            // exactly one descent, at each position, the rest tied
            for p in 0..kn - 1 {
                let (a, b) = (var("hi"), var("lo"));
                let f0 = Facts::new().assume(lt(b, a), true);
                let k2: Vec<Tm> = (0..kn).map(|i| if i <= p { a } else { b }).collect();
                let run = ck.run(&e, &format!("one descent after knot {}", p), vec![fk(&k2), pv(&cps)], f0);
                for (i, (_, v)) in run.outs.iter().enumerate() {
                    let r: Rs = (|| match int(v, &[0])? { 4 => Ok("decreasing-knots error".into()), x => Err(format!("code {} for decreasing knots", x)) })();
                    ck.ob("accepted <=> knots non-decreasing", &run, &format!("partition {}", i), r);
                }
            }
        }
        // every order cell is accepted and stored as given
        let lim = if ck.thorough { 12 } else if d == 1 { 8 } else { 6 };
        for sh in shapes(ck, g, c, lim, false) {
            let cl = cell(&sh, None);
            let run = ck.run(&e, &sh.name(), vec![fk(&cl.k), pv(&cps)], cl.facts.clone());
            for (f, v) in &run.outs {
                let r: Rs = (|| match int(v, &[0])? { 0 => Ok("accepted".into()), x => Err(format!("code {} for non-decreasing knots", x)) })();
                ck.ob("accepted <=> knots non-decreasing", &run, "", r);
                match stored(v, &cl.k) {
                    Err(x) => ck.ob("stores the given knots and control points in order", &run, "", Err(x)),
                    Ok(l) => for (w, a, b) in l { let r = bits_same(f, a, b); ck.ob("stores the given knots and control points in order", &run, &w, r); },
                }
            }
        }
        // infinite end knots are still non-decreasing
        let cl = cell(&Shape { mult: vec![1; kn], gaps: None }, None);
        // how many knots at the front and at the back are infinite
        for (lo, hi) in [(1, 1), (1, 2), (2, 1), (2, 2), (0, 2), (2, 0), (g + 1, g + 1), (0, kn), (kn, 0), (kn - 1, 1)] {
            if lo + hi > kn { continue; }
            let mut ks = cl.k.clone();
            for i in 0..lo { ks[i] = cf(f64::NEG_INFINITY); }
            for i in 0..hi { ks[kn - 1 - i] = cf(f64::INFINITY); }
            let run = ck.run(&e, &format!("{} knots = -inf, {} knots = inf", lo, hi), vec![fk(&ks), pv(&cps)], cl.facts.clone());
            for (i, (f, v)) in run.outs.iter().enumerate() {
                let r: Rs = (|| {
                    match int(v, &[0])? { 0 => {} x => return Err(format!("code {} for non-decreasing knots", x)) }
                    for (w, a, b) in stored(v, &ks)? { bits_same(f, a, b).map_err(|e| format!("{}: {}", w, e))?; }
                    Ok("accepted and stored".into())
                })();
                ck.ob("accepted <=> knots non-decreasing", &run, &format!("partition {}", i), r);
            }
            // the wrong way round
            for p in 0..kn - 1 {
                if ks[p] == ks[p + 1] || (p + 1 < kn - hi && p >= lo) { continue; }
                let mut k2 = ks.clone();
                k2.swap(p, p + 1);
                let run = ck.run(&e, &format!("{} knots = -inf, {} knots = inf, knots {} and {} exchanged", lo, hi, p, p + 1), vec![fk(&k2), pv(&cps)], cl.facts.clone());
                for (i, (_, v)) in run.outs.iter().enumerate() {
                    let r: Rs = (|| match int(v, &[0])? { 4 => Ok("rejected".into()), x => Err(format!("code {} for knots that are not non-decreasing", x)) })();
                    ck.ob("accepted <=> knots non-decreasing", &run, &format!("partition {}", i), r);
                }
            }
        }
    }
    // shapes that must be rejected, whatever the knots are
    for g in 0..=8usize { for c in 0..=12usize { for kn in 0..=20usize {
        let e = format!("n{}_{}_{}::new", g, c, kn);
        if !ck.has(&e) { continue; }
        let want = if c <= g { 1 } else if kn < c + g + 1 { 2 } else { 3 };
        let cps = pts(c, 1);
        let sym: Vec<Tm> = (0..kn).map(|i| var(&format!("k{}", i))).collect();
        let mut nan = sym.clone();
        if kn > 0 { nan[0] = cf(f64::NAN); }
        for (case, ks) in [("symbolic knots", sym), ("first knot NaN", nan)] {
            let run = ck.run(&e, case, vec![fk(&ks), pv(&cps)], Facts::new());
            for (i, (_, v)) in run.outs.iter().enumerate() {
                let r: Rs = (|| { let x = int(v, &[0])?; if x == want { Ok(format!("error code {}", want)) } else { Err(format!("code {} instead of {}", x, want)) } })();
                ck.ob("wrong shapes get the specified error", &run, &format!("partition {}", i), r);
            }
        }
    } } }
    crate::long::c11(ck);
}
// ------------------------------------------------------------------ C12
pub fn c12(ck: &mut Ck) {
    for (m, d, g, c) in ck.bsplines("s", "eval") {
        let cps = pts(c, d);
        for sh in shapes(ck, g, c, limit(ck, d), false).into_iter().chain(scaled_shapes(ck, d, g, c)) {
            ck.set_soft(sh.gaps.is_some());
            let cl = cell(&sh, None);
            let run = ck.run(&format!("{}::domain", m), &sh.name(), vec![fk(&cl.k), pv(&cps)], cl.facts.clone());
            ck.expect("knot domain = [knot[D], knot[C]]", &run, &|_, v| {
                if int(v, &[0])? != 0 { return Err(format!("code {}", int(v, &[0])?)); }
                Ok(vec![("lower end".into(), num(v, &[1])?, cl.k[g]), ("upper end".into(), num(v, &[2])?, cl.k[c])])
            });
            let mut ps: Vec<(String, Cell, Tm, bool)> = positions(&sh).into_iter().map(|p| { let i = in_domain(&p.cell, g, c, p.ord); (p.name, p.cell, p.t, i) }).collect();
            for x in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] { ps.push((format!("t = {}", x), cl.clone(), cf(x), false)); }
            for (name, cell, t, inside) in ps {
                let run = ck.run(&format!("{}::eval", m), &format!("{}, {}", sh.name(), name), vec![fk(&cell.k), pv(&cps), tv(t)], cell.facts.clone());
                let want = if inside { 0 } else { 5 };
                for (i, (f, v)) in run.outs.iter().enumerate() {
                    let r: Rs = (|| { let x = int(v, &[0])?; if x == want { Ok(if inside { "succeeds".into() } else { "knot-domain error".into() }) } else { Err(format!("code {} instead of {}; path condition: {}", x, want, path(f))) } })();
                    ck.ob("success <=> t in the knot domain", &run, &format!("partition {}", i), r);
                }
            }
        }
        ck.set_soft(false);
    }
    // fully symbolic small shapes: no order assumption at all
    for (m, d, g, c) in ck.bsplines("s", "eval") {
        let kn = c + g + 1;
        if d > 1 || kn > (if ck.thorough { 6 } else { 5 }) { continue; }
        let cps = pts(c, d);
        let ks: Vec<Tm> = (0..kn).map(|i| var(&format!("k{}", i))).collect();
        let t = var("t");
        let run = ck.run(&format!("{}::eval", m), "symbolic knots and parameter", vec![fk(&ks), pv(&cps), tv(t)], Facts::new());
        let inside = and(le(ks[g], t), le(t, ks[c]));
        for (i, (f, v)) in run.outs.iter().enumerate() {
            let r: Rs = (|| match int(v, &[0])? {
                104 => Ok("not constructed".into()),
                0 => cond_equiv(f, ctrue(), inside, 24),
                5 => cond_equiv(f, cfalse(), inside, 24),
                x => Err(format!("code {}; path condition: {}", x, path(f))),
            })();
            ck.ob("success <=> t in the knot domain", &run, &format!("partition {}", i), r);
        }
    }
    crate::long::c12(ck);
}
// ------------------------------------------------------------------ C13
pub fn c13(ck: &mut Ck) {
    let rule = "value = Cox-de Boor sum";
    for (m, d, g, c) in ck.bsplines("s", "eval") {
        let cps = pts(c, d);
        for sh in shapes(ck, g, c, limit(ck, d), true).into_iter().chain(scaled_shapes(ck, d, g, c)) { ck.set_soft(sh.gaps.is_some()); for p in positions(&sh) {
            if !regular(&p.cell, g, c) || !in_domain(&p.cell, g, c, p.ord) { continue; }
            let s = span(&p.cell, g, c, p.ord);
            let w = basis(&p.cell, g, s, p.t);
            let want: Vec<Tm> = (0..d).map(|k| combine(&w[..c], &col(&cps, k))).collect();
            let run = ck.run(&format!("{}::eval", m), &format!("{}, {}", sh.name(), p.name), vec![fk(&p.cell.k), pv(&cps), tv(p.t)], p.cell.facts.clone());
            ck.expect(rule, &run, &|_, v| {
                if int(v, &[0])? != 0 { return Err(format!("code {}", int(v, &[0])?)); }
                (0..d).map(|k| Ok((AX[k].to_string(), num(v, &[1, k])?, want[k]))).collect()
            });
        } }
        ck.set_soft(g > 5);
        // corollary: a clamped spline without interior knots is the Bezier curve
        if c == g + 1 {
            let cl = cell(&Shape { mult: vec![g + 1, g + 1], gaps: None }, Some(0));
            let tau = div(var("x"), add(var("x"), var("y")));
            let want: Vec<Tm> = (0..d).map(|k| bern(&col(&cps, k), tau)).collect();
            let run = ck.run(&format!("{}::eval", m), "clamped without interior knots", vec![fk(&cl.k), pv(&cps), tv(cl.split.unwrap().1)], cl.facts.clone());
            ck.expect("clamped spline without interior knots = Bezier curve", &run, &|_, v| (0..d).map(|k| Ok((AX[k].to_string(), num(v, &[1, k])?, want[k]))).collect());
        }
        ck.set_soft(false);
    }
    crate::long::c13(ck);
}
// ------------------------------------------------------------------ C14
pub fn c14(ck: &mut Ck) {
    for (m, d, g, c) in ck.bsplines("sd", "deriv_eval") {
        if g == 0 { continue; }
        let cps = pts(c, d);
        for sh in shapes(ck, g, c, limit(ck, d), true).into_iter().chain(scaled_shapes(ck, d, g, c)) {
            ck.set_soft(sh.gaps.is_some());
            let cl = cell(&sh, None);
            if !regular(&cl, g, c) { continue; }
            let run = ck.run(&format!("{}::deriv", m), &sh.name(), vec![fk(&cl.k), pv(&cps)], cl.facts.clone());
            ck.expect("derivative spline has the same knot domain", &run, &|_, v| {
                if int(v, &[0])? != 0 { return Err(format!("code {}", int(v, &[0])?)); }
                if int(v, &[3])? != c as i128 - 1 { return Err(format!("{} control points instead of {}", int(v, &[3])?, c - 1)); }
                Ok(vec![("lower end".into(), num(v, &[1])?, cl.k[g]), ("upper end".into(), num(v, &[2])?, cl.k[c])])
            });
            for p in positions(&sh) {
                // a knot where the curve itself jumps has no derivative
                if (1..c).any(|i| cl.grp[i + g] == cl.grp[i] && p.ord == 2 * cl.grp[i] as i64) { continue; }
                let inside = in_domain(&p.cell, g, c, p.ord);
                let run = ck.run(&format!("{}::deriv_eval", m), &format!("{}, {}", sh.name(), p.name), vec![fk(&p.cell.k), pv(&cps), tv(p.t)], p.cell.facts.clone());
                if !inside {
                    for (f, v) in &run.outs { let r: Rs = (|| match int(v, &[0])? { 5 => Ok("knot-domain error".into()), x => Err(format!("code {} outside the domain; path condition: {}", x, path(f))) })(); ck.ob("derivative spline has the same knot domain", &run, "", r); }
                    continue;
                }
                let s = span(&p.cell, g, c, p.ord);
                let w = basis(&p.cell, g - 1, s, p.t);
                let want: Vec<Tm> = (0..d).map(|k| sum((0..c - 1).filter_map(|i| {
                    let x = w[i + 1]?;
                    if p.cell.grp[i + g + 1] == p.cell.grp[i + 1] { return None; }
                    Some(mul(mul(div(ci(g as i128), sub(p.cell.k[i + g + 1], p.cell.k[i + 1])), sub(cps[i + 1][k], cps[i][k])), x))
                }))).collect();
                ck.expect("derivative spline value = derivative of the Cox-de Boor sum", &run, &|_, v| {
                    if int(v, &[0])? != 0 { return Err(format!("code {}", int(v, &[0])?)); }
                    (0..d).map(|k| Ok((AX[k].to_string(), num(v, &[1, k])?, want[k]))).collect()
                });
            }
        }
        ck.set_soft(false);
    }
    crate::long::c14(ck);
}
/// knot vector without its first and last knot
fn stripped(sh: &Shape) -> Vec<usize> { strip(&sh.mult) }
fn strip(m: &[usize]) -> Vec<usize> {
    let mut m = m.to_vec();
    m[0] -= 1;
    *m.last_mut().unwrap() -= 1;
    m.retain(|x| *x > 0);
    m
}
fn regular_mult(mult: &[usize], deg: usize, ncp: usize) -> bool {
    if mult.iter().sum::<usize>() != deg + ncp + 1 { return false; }
    regular(&cell(&Shape { mult: mult.to_vec(), gaps: Some(0) }, None), deg, ncp)
}
/// control values and basis of the derivative of order o, from those of the order before it
fn deriv_sum(c: &Cell, g: usize, o: usize, s: usize, t: Tm, p: &[Tm]) -> Tm {
    // q[i] belongs to the basis function i + level of degree g - level
    let mut q: Vec<Option<Tm>> = p.iter().map(|x| Some(*x)).collect();
    for level in 1..=o {
        let deg = g - level + 1;
        q = (0..q.len() - 1).map(|i| {
            let (a, b) = (i + level, i + level + deg);
            if c.grp[a] == c.grp[b] { return None; }
            Some(mul(div(ci(deg as i128), sub(c.k[b], c.k[a])), sub(q[i + 1]?, q[i]?)))
        }).collect();
    }
    let w = basis(c, g - o, s, t);
    sum((0..q.len()).filter_map(|i| Some(mul(q[i]?, w[i + o]?))))
}
pub fn c14_second(ck: &mut Ck) {
    for (m, d, g, c) in ck.bsplines("se", "deriv2_eval") {
        let cps = pts(c, d);
        for sh in shapes(ck, g, c, limit(ck, d).min(8), true) {
            ck.set_soft(sh.gaps.is_some());
            let cl = cell(&sh, None);
            if !regular(&cl, g, c) || !regular_mult(&stripped(&sh), g - 1, c - 1) { continue; }
            if !regular_mult(&strip(&stripped(&sh)), g - 2, c - 2) { continue; }
            for p in positions(&sh) {
                if !in_domain(&p.cell, g, c, p.ord) { continue; }
                // where the first derivative jumps there is no second one
                if p.ord % 2 == 0 && p.ord > 2 * cl.grp[g] as i64 && p.ord < 2 * cl.grp[c] as i64 && cl.mult[(p.ord / 2) as usize] + 1 > g { continue; }
                let run = ck.run(&format!("{}::deriv2_eval", m), &format!("{}, {}", sh.name(), p.name), vec![fk(&p.cell.k), pv(&cps), tv(p.t)], p.cell.facts.clone());
                let s = span(&p.cell, g, c, p.ord);
                let want: Vec<Tm> = (0..d).map(|k| deriv_sum(&p.cell, g, 2, s, p.t, &col(&cps, k))).collect();
                ck.expect("derivative of the derivative spline = second derivative of the Cox-de Boor sum", &run, &|_, v| {
                    if int(v, &[0])? != 0 { return Err(format!("code {}", int(v, &[0])?)); }
                    (0..d).map(|k| Ok((AX[k].to_string(), num(v, &[1, k])?, want[k]))).collect()
                });
            }
        }
        ck.set_soft(false);
    }
}
// ------------------------------------------------------------------ C28 for splines
pub fn c28(ck: &mut Ck) {
    let rule = "a clone carries the same numbers and evaluates alike";
    for (m, d, g, c) in ck.bsplines("s", "clone") {
        let cps = pts(c, d);
        let lim = if ck.thorough { 7 } else { 5 };
        for sh in shapes(ck, g, c, lim, false) {
            ck.set_soft(sh.gaps.is_some());
            for (pi, p) in positions(&sh).into_iter().enumerate() {
                let o: Vec<Vec<Tm>> = (0..c).map(|i| pt(&format!("Q{}", i), d)).collect();
                let kn = g + c + 1;
                // over splines with equally spaced knots and with repeated knots at both ends
                let old: Vec<Vec<Tm>> = vec![(0..kn).map(|i| ci(i as i128 - 2)).collect(), (0..kn).map(|i| ci(if i <= g { -3 } else if i >= c { 1000 } else { i as i128 })).collect()];
                let mut runs = vec![ck.run(&format!("{}::clone", m), &format!("{}, {}", sh.name(), p.name), vec![fk(&p.cell.k), pv(&cps), tv(p.t)], p.cell.facts.clone())];
                if ck.has(&format!("{}::clone_from", m)) && (ck.thorough || pi == 1) { for (i, k2) in old.iter().enumerate() {
                    runs.push(ck.run(&format!("{}::clone_from", m), &format!("{}, {}, over {} knots", sh.name(), p.name, if i == 0 { "uniform" } else { "clamped" }), vec![fk(&p.cell.k), pv(&cps), tv(p.t), fk(k2), pv(&o)], p.cell.facts.clone()));
                } }
                for run in runs {
                    for (i, (f, v)) in run.outs.iter().enumerate() {
                        let r: Rs = (|| {
                            if int(v, &[0])? != 0 { return Err(format!("code {}", int(v, &[0])?)); }
                            if int(v, &[1])? as usize != p.cell.k.len() || int(v, &[3])? as usize != c { return Err(format!("{} knots and {} control points in the clone", int(v, &[1])?, int(v, &[3])?)); }
                            for (j, k) in p.cell.k.iter().enumerate() { bits_same(f, num(v, &[2, j])?, *k).map_err(|e| format!("knot {}: {}", j, e))?; }
                            for (j, x) in cps.iter().enumerate() { for k in 0..d { bits_same(f, num(v, &[4, j, k])?, x[k]).map_err(|e| format!("control point {}.{}: {}", j, AX[k], e))?; } }
                            for j in 0..2 { bits_same(f, num(v, &[5, j])?, num(v, &[5, 2 + j])?).map_err(|e| format!("knot domain: {}", e))?; }
                            if int(v, &[6, 0, 0])? != int(v, &[6, 1, 0])? { return Err(format!("evaluation code {} for the clone, {} for the original", int(v, &[6, 0, 0])?, int(v, &[6, 1, 0])?)); }
                            for k in 0..d { bits_same(f, num(v, &[6, 0, 1, k])?, num(v, &[6, 1, 1, k])?).map_err(|e| format!("value: {}", e))?; }
                            Ok("same knots, control points, domain and value".into())
                        })();
                        ck.ob(rule, &run, &format!("partition {}", i), r);
                    }
                }
            }
        }
        ck.set_soft(false);
    }
}
// ------------------------------------------------------------------ C30, the values
pub fn c30(ck: &mut Ck) {
    for (m, d, g, c) in ck.bsplines("sd", "deriv_knots") {
        if d > 2 && !ck.thorough { continue; }
        let cps = pts(c, d);
        let kn = g + c + 1;
        let lim = if ck.thorough { 11 } else { 8 };
        for sh in shapes(ck, g, c, lim, false) {
            ck.set_soft(sh.gaps.is_some());
            let cl = cell(&sh, None);
            let run = ck.run(&format!("{}::deriv_knots", m), &sh.name(), vec![fk(&cl.k), pv(&cps)], cl.facts.clone());
            for (i, (f, v)) in run.outs.iter().enumerate() {
                let r: Rs = (|| {
                    if int(v, &[0])? != 0 { return Err(format!("code {}", int(v, &[0])?)); }
                    if int(v, &[1])? as usize != kn - 2 { return Err(format!("{} knots instead of {}", int(v, &[1])?, kn - 2)); }
                    let ks: Vec<Tm> = (0..kn - 2).map(|j| num(v, &[2, j])).collect::<Result<_, _>>()?;
                    for j in 0..kn - 3 { if f.cmp(ks[j], ks[j + 1]) & POS != 0 { return Err(format!("knots {} and {} of the derivative are not shown to be in order: {} then {}", j, j + 1, cut(&show(ks[j]), 100), cut(&show(ks[j + 1]), 100))); } }
                    Ok(format!("{} knots in order", kn - 2))
                })();
                ck.ob("the knots of a derivative spline are non-decreasing", &run, &format!("partition {}", i), r);
            }
        }
        ck.set_soft(false);
    }
    for (m, d, g, c) in ck.bsplines("s", "new") {
        let kn = g + c + 1;
        if d > 1 || kn > (if ck.thorough { 10 } else { 8 }) { continue; }
        let cps = pts(c, d);
        let ks: Vec<Tm> = (0..kn).map(|i| var(&format!("k{}", i))).collect();
        let run = ck.run(&format!("{}::new", m), "symbolic knots", vec![fk(&ks), pv(&cps)], Facts::new());
        for (i, (f, v)) in run.outs.iter().enumerate() {
            let r: Rs = (|| {
                if int(v, &[0])? != 0 { return Ok("rejected".into()); }
                for j in 0..kn - 1 { if f.cmp(num(v, &[2, j])?, num(v, &[2, j + 1])?) & POS != 0 { return Err(format!("knots {} and {} are not shown to be in order; path condition: {}", j, j + 1, path(f))); } }
                Ok(format!("{} knots in order", kn))
            })();
            ck.ob("the knots of a constructed spline are non-decreasing", &run, &format!("partition {}", i), r);
        }
    }
}
// ------------------------------------------------------------------ C31
pub fn c31(ck: &mut Ck) {
    let local = "a control point only acts between knots j and j + D + 1";
    let smooth = "value and derivatives up to D - multiplicity agree from both sides of a knot";
    let (xa, ya) = (atom_of(var("x")).unwrap(), atom_of(var("y")).unwrap());
    let sv = var("s");
    let sa = atom_of(sv).unwrap();
    for (m, d, g, c) in ck.bsplines("s", "eval") {
        let cps = pts(c, d);
        let lim = if ck.thorough { limit(ck, d) } else { limit(ck, d).min(8) };
        for sh in shapes(ck, g, c, lim, true) {
            ck.set_soft(sh.gaps.is_some());
            let base = cell(&sh, None);
            if !regular(&base, g, c) { continue; }
            let ng = sh.mult.len();
            // the formulas at every knot and in every gap, one per case the library distinguishes
            let mut at_knot: Vec<Vec<Vec<RatFn>>> = vec![vec![]; ng];
            let mut in_gap: Vec<Vec<Vec<RatFn>>> = vec![vec![]; ng];
            let mut last = None;
            for p in positions(&sh) {
                if !in_domain(&p.cell, g, c, p.ord) { continue; }
                let run = ck.run(&format!("{}::eval", m), &format!("{}, {}", sh.name(), p.name), vec![fk(&p.cell.k), pv(&cps), tv(p.t)], p.cell.facts.clone());
                let places = if p.ord % 2 == 0 { &mut at_knot } else { &mut in_gap };
                for (i, (f, v)) in run.outs.iter().enumerate() {
                    let mut vals: Vec<RatFn> = vec![];
                    for k in 0..d {
                        let at: Vec<Atom> = cps.iter().map(|x| atom_of(x[k]).unwrap()).collect();
                        let r: Rs = (|| {
                            if int(v, &[0])? != 0 { return Err(format!("code {}", int(v, &[0])?)); }
                            let val = f.nf(num(v, &[1, k])?).ok_or("value without a normal form")?;
                            let w = linear_in(&val, &at)?;
                            for (j, x) in w.iter().enumerate() {
                                let outside = p.ord < 2 * base.grp[j] as i64 || p.ord > 2 * base.grp[j + g + 1] as i64;
                                if outside && !x.is_zero() { return Err(format!("control point {} has weight {} outside its knots", j, cut(&show_rf(x), 200))); }
                            }
                            vals.push((*val).clone());
                            Ok(format!("{} of {} control points act", w.iter().filter(|x| !x.is_zero()).count(), c))
                        })();
                        ck.ob(local, &run, &format!("{} partition {}", AX[k], i), r);
                    }
                    let here = &mut places[(p.ord / 2) as usize];
                    if vals.len() == d && !here.iter().any(|x| x.iter().zip(&vals).all(|(a, b)| a.eq(b))) { here.push(vals); }
                }
                last = Some(run);
            }
            let run = match last { Some(r) => r, None => continue };
            let run = Run { name: run.name, case: format!(" [{}]", sh.name()), outs: vec![], construct: run.construct };
            let size = |j: usize| -> RatFn { match sh.gap(j) { Some(r) => RatFn::constant(r), None => RatFn::atom(atom_of(var(&format!("g{}", j))).unwrap()) } };
            let s = RatFn::atom(sa);
            for j in 0..ng {
                let (lo, hi) = (base.grp[g], base.grp[c]);
                if j < lo || j > hi { continue; }
                if (j > lo && in_gap[j - 1].is_empty()) || (j < hi && in_gap[j].is_empty()) || at_knot[j].is_empty() { ck.unclear(smooth); continue; }
                let lefts: Vec<Option<&Vec<RatFn>>> = if j > lo { in_gap[j - 1].iter().map(Some).collect() } else { vec![None] };
                let rights: Vec<Option<&Vec<RatFn>>> = if j < hi { in_gap[j].iter().map(Some).collect() } else { vec![None] };
                let jumps = j > lo && j < hi && sh.mult[j] > g;
                for (lv, rv, kv) in lefts.iter().flat_map(|l| rights.iter().map(move |r| (l, r))).flat_map(|(l, r)| at_knot[j].iter().map(move |k| (l, r, k))) { for k in 0..d {
                    let left = lv.map(|v| (v, size(j - 1).add(&s), s.neg()));
                    let right = rv.map(|v| (v, s.clone(), size(j).sub(&s)));
                    let near = |side: &Option<(&Vec<RatFn>, RatFn, RatFn)>| -> Option<Result<RatFn, String>> {
                        let (v, x, y) = side.as_ref()?;
                        Some(v[k].subst(&|a| if a == xa { Some(x.clone()) } else if a == ya { Some(y.clone()) } else { None }).ok_or("the formula has no limit at the knot".to_string()))
                    };
                    let r: Rs = (|| {
                        let zero = |r: &RatFn| -> Option<RatFn> { r.subst(&|a| if a == sa { Some(RatFn::zero()) } else { None }) };
                        let here = &kv[k];
                        let (l, r) = (near(&left).transpose()?, near(&right).transpose()?);
                        for (nm, q) in [("left", &l), ("right", &r)] {
                            let q = match q { Some(q) => q, None => continue };
                            if jumps && nm == "left" { continue; }
                            let q0 = zero(q).ok_or("the formula has no limit at the knot")?;
                            if !q0.eq(here) { return Err(format!("the limit from the {} is {} but the value at the knot is {}", nm, cut(&show_rf(&q0), 200), cut(&show_rf(here), 200))); }
                        }
                        if let (Some(l), Some(r), false) = (&l, &r, jumps) {
                            let diff = l.sub(r);
                            for q in diff.den.keys() { if subst_poly(q, &|a| if a == sa { Some(RatFn::zero()) } else { None }).is_zero() { return Err("cannot relate the two sides: a denominator vanishes at the knot".into()); } }
                            let cs = diff.num.coeffs_in(sa);
                            for (o, q) in cs.iter().enumerate().take(g - sh.mult[j] + 1) { if !q.is_zero() { return Err(format!("derivative of order {} jumps at a knot of multiplicity {}", o, sh.mult[j])); } }
                            return Ok(format!("agree up to order {}", g - sh.mult[j]));
                        }
                        Ok("limit = value".into())
                    })();
                    ck.ob(smooth, &run, &format!("knot value {} {}", j, AX[k]), r);
                } }
            }
        }
        ck.set_soft(false);
    }
    crate::long::c31(ck);
}
// ------------------------------------------------------------------ C15
/// chords of the curve over its knot domain; knots rational, or symbolic with one span in the domain
pub fn arc(ck: &mut Ck, m: &str, d: usize, g: usize, c: usize, sh: &Shape, n: usize) {
    let cps = pts(c, d);
    let cl = cell(sh, None);
    if sh.gaps.is_none() && cl.grp[c] != cl.grp[g] + 1 { return; }
    if !regular(&cl, g, c) { return; }
    // a degree-0 spline jumps at its knots: only sample parameters that are exact
    if sh.gaps.is_some() && g == 0 && !n.is_power_of_two() { return; }
    let vals: Vec<Rat> = if sh.gaps.is_some() { cl.v.iter().map(|x| cl.facts.nf(*x).unwrap().as_const().unwrap()).collect() } else { vec![] };
    let case = format!("{} n = {}", sh.name(), n);
    let run = ck.run(&format!("{}::arclen", m), &case, vec![fk(&cl.k), pv(&cps), iv(n)], cl.facts.clone());
    if run.outs.is_empty() { return; }
    let p: Vec<Vec<Tm>> = (0..=n).map(|i| {
        let (t, s) = if sh.gaps.is_some() {
            let (lo, hi) = (vals[cl.grp[g]], vals[cl.grp[c]]);
            let t = lo.add(hi.sub(lo).mul(Rat::new(i as i128, n as i128)));
            let mut ord = -1;
            for (j, v) in vals.iter().enumerate() { if *v == t { ord = 2 * j as i64; } else if v.lt(&t) { ord = 2 * j as i64 + 1; } }
            (cr(t), span(&cl, g, c, ord))
        } else {
            let (lo, hi) = (cl.k[g], cl.k[c]);
            (add(lo, mul(sub(hi, lo), cr(Rat::new(i as i128, n as i128)))), span(&cl, g, c, if i == n { 2 * cl.grp[c] as i64 } else { 2 * cl.grp[g] as i64 }))
        };
        let w = basis(&cl, g, s, t);
        (0..d).map(|k| combine(&w[..c], &col(&cps, k))).collect()
    }).collect();
    let want = chord(&p);
    ck.expect("arc length = sum of the n chords over the knot domain", &run, &|_, v| {
        if int(v, &[0])? != 0 { return Err(format!("code {}", int(v, &[0])?)); }
        Ok(vec![("length".into(), num(v, &[1])?, want)])
    });
}
/// the same with every comparison of differently computed, mathematically equal
/// numbers open to rounding: no sample may be lost at the ends of the domain
fn arc_rounded(ck: &mut Ck, m: &str, d: usize, g: usize, c: usize, n: usize) {
    let kn = g + c + 1;
    let cps = pts(c, d);
    for mult in compositions(kn) {
        let sh = Shape { mult, gaps: None };
        let cl = cell(&sh, None);
        if cl.grp[c] != cl.grp[g] + 1 || !regular(&cl, g, c) { continue; }
        set_rounding(true);
        let run = ck.run(&format!("{}::arclen", m), &format!("{} n = {}, ties open to rounding", sh.name(), n), vec![fk(&cl.k), pv(&cps), iv(n)], cl.facts.clone());
        set_rounding(false);
        let p: Vec<Vec<Tm>> = (0..=n).map(|i| {
            let (lo, hi) = (cl.k[g], cl.k[c]);
            let t = add(lo, mul(sub(hi, lo), cr(Rat::new(i as i128, n as i128))));
            let w = basis(&cl, g, span(&cl, g, c, if i == n { 2 * cl.grp[c] as i64 } else { 2 * cl.grp[g] as i64 }), t);
            (0..d).map(|k| combine(&w[..c], &col(&cps, k))).collect()
        }).collect();
        let want = chord(&p);
        ck.expect("no chord is lost to rounding at the ends of the knot domain", &run, &|_, v| {
            if int(v, &[0])? != 0 { return Err(format!("code {}", int(v, &[0])?)); }
            Ok(vec![("length".into(), num(v, &[1])?, want)])
        });
    }
}
const GAPS: [[i128; 11]; 3] = [[1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1], [2, 1, 3, 1, 2, 5, 1, 2, 3, 1, 2], [1, 4, 1, 2, 7, 1, 3, 1, 1, 2, 2]];
pub fn c15(ck: &mut Ck) {
    let at = crate::rules::step_thresholds(ck);
    let all = ck.bsplines("s", "arclen");
    for (m, d, g, c) in &all { if *d <= 2 && *g >= 1 && *g + *c + 1 <= 6 { for n in [1, 2, 3] { arc_rounded(ck, m, *d, *g, *c, n); } } }
    for soft in [false, true] {
        let all = all.clone();
        let mut body = |ck: &mut Ck| for (m, d, g, c) in &all {
            let (d, g, c) = (*d, *g, *c);
            let kn = c + g + 1;
            let lim = if ck.thorough { if d == 1 { 10 } else { 7 } } else if d == 1 { 8 } else { 6 };
            if kn > lim { if soft { for sh in shapes(ck, g, c, lim, false) { for n in if ck.thorough { vec![1, 2, 3, 4, 7] } else { vec![1, 3] } { arc(ck, m, d, g, c, &sh, n); } } } continue; }
            let counts: Vec<usize> = match (soft, ck.thorough) {
                (false, _) => if d <= 2 { vec![1, 2, 3, 4] } else { vec![1, 2, 3] },
                (true, false) => vec![5, 6],
                (true, true) => vec![5, 6, 7, 8, 12, 16],
            };
            for mult in compositions(kn) {
                for n in &counts {
                    if soft && !ck.thorough && kn > 6 { continue; }
                    for si in 0..3 {
                        if si > 0 && !ck.thorough && kn > 6 { continue; }
                        arc(ck, m, d, g, c, &Shape { mult: mult.clone(), gaps: Some(si) }, *n);
                    }
                    arc(ck, m, d, g, c, &Shape { mult: mult.clone(), gaps: None }, *n);
                }
            }
        };
        if soft { ck.softly(&mut body); } else { body(ck); }
    }
    ck.soft_s = if ck.thorough { 60 } else { 15 };
    ck.softly(&mut |ck| for (m, d, g, c) in &all {
        // clamped, one span
        if *d == 1 && *c == *g + 1 && *g >= 1 && *g <= 2 { for n in &at { arc(ck, m, *d, *g, *c, &Shape { mult: vec![*g + 1, *g + 1], gaps: Some(0) }, *n); } }
    });
    crate::long::c15(ck);
}
fn chord(p: &[Vec<Tm>]) -> Tm {
    let mut s: Option<Tm> = None;
    for i in 1..p.len() { let l = sqrt(dist2(&p[i], &p[i - 1])); s = Some(match s { None => l, Some(x) => add(x, l) }); }
    s.unwrap_or(ci(0))
}
// ------------------------------------------------------------------ C23 for splines
pub fn c23(ck: &mut Ck) {
    set_tol(Tol::Full);
    for (m, d, g, c) in ck.bsplines("s", "eval") {
        let lim = if ck.thorough { limit(ck, d) } else { 7 };
        let cps = pts(c, d);
        for sh in shapes(ck, g, c, lim, true).into_iter().chain(scaled_shapes(ck, d, g, c)) { ck.set_soft(sh.gaps.is_some()); for p in positions(&sh) {
            if !regular(&p.cell, g, c) || !in_domain(&p.cell, g, c, p.ord) { continue; }
            let run = ck.run(&format!("{}::eval", m), &format!("{}, {}", sh.name(), p.name), vec![fk(&p.cell.k), pv(&cps), tv(p.t)], p.cell.facts.clone());
            for (f, v) in &run.outs { for k in 0..d {
                let at: Vec<Atom> = cps.iter().map(|x| atom_of(x[k]).unwrap()).collect();
                let w = (|| -> Result<Vec<RatFn>, String> {
                    if int(v, &[0])? != 0 { return Err(format!("code {}", int(v, &[0])?)); }
                    linear_in(&*f.nf(num(v, &[1, k])?).ok_or("value without a normal form")?, &at)
                })();
                let w = match w { Ok(w) => w, Err(e) => { ck.ob("combination of the control points", &run, AX[k], Err(e)); continue; } };
                let mut s = RatFn::zero();
                for x in &w { s = s.add(x); }
                ck.ob("weights sum to one", &run, AX[k], if s.eq(&RatFn::one()) { Ok("sum 1".into()) } else { Err(format!("weights sum to {}", cut(&show_rf(&s), 200))) });
                for (j, x) in w.iter().enumerate() {
                    let r = if f.sign(x, 2) & NEG == 0 { Ok(format!("{} >= 0", cut(&show_rf(x), 100))) } else { Err(format!("weight {} of control point {} is not shown to be non-negative", cut(&show_rf(x), 200), j)) };
                    ck.ob("weights are non-negative in the knot domain", &run, &format!("{} weight {}", AX[k], j), r);
                }
            } }
        } }
        ck.set_soft(false);
    }
}
// ------------------------------------------------------------------ C24 for splines
pub fn c24(ck: &mut Ck) {
    set_tol(Tol::Full);
    for (m, d, g, c) in ck.bsplines("s", "eval") {
        let cps = pts(c, d);
        for sh in shapes(ck, g, c, limit(ck, d), false).into_iter().chain(scaled_shapes(ck, d, g, c)) {
            let mult = &sh.mult;
            let cl = cell(&sh, None);
            if !regular(&cl, g, c) { continue; }
            ck.set_soft(sh.gaps.is_some());
            // clamped at the start / at the end
            for (side, clamped, t, want) in [("start", mult[0] == g + 1, cl.k[g], &cps[0]), ("end", mult[mult.len() - 1] == g + 1, cl.k[c], &cps[c - 1])] {
                if !clamped { continue; }
                let run = ck.run(&format!("{}::eval", m), &format!("{}, {} of the domain", sh.name(), side), vec![fk(&cl.k), pv(&cps), tv(t)], cl.facts.clone());
                for (f, v) in &run.outs { for k in 0..d {
                    let r: Rs = (|| { if int(v, &[0])? != 0 { return Err(format!("code {}", int(v, &[0])?)); } crate::rules::exact_same(f, num(v, &[1, k])?, want[k]) })();
                    ck.ob("exact end point", &run, AX[k], r);
                } }
            }
        }
    }
}

// ------------------------------------------------------------------ C32 for splines
pub fn c32(ck: &mut Ck) {
    let (a, b) = (var("a"), var("b"));
    for (m, d, g, c) in ck.bsplines("s", "eval") {
        if d > 3 { continue; }
        let cps = pts(c, d);
        let rev: Vec<Vec<Tm>> = cps.iter().rev().cloned().collect();
        let lim = if ck.thorough { limit(ck, d).min(10) } else { limit(ck, d).min(if d == 1 { 8 } else { 6 }) };
        for sh in shapes(ck, g, c, lim, true) {
            ck.set_soft(sh.gaps.is_some());
            for p in positions(&sh) {
                if !regular(&p.cell, g, c) || !in_domain(&p.cell, g, c, p.ord) { continue; }
                let s = span(&p.cell, g, c, p.ord);
                let w = basis(&p.cell, g, s, p.t);
                let want: Vec<Tm> = (0..d).map(|k| combine(&w[..c], &col(&cps, k))).collect();
                let (lo, hi) = (p.cell.grp[g], p.cell.grp[c]);
                let at_jump = p.ord % 2 == 0 && p.ord > 2 * lo as i64 && p.ord < 2 * hi as i64 && sh.mult[(p.ord / 2) as usize] > g;
                let mirrored: Vec<Tm> = p.cell.k.iter().rev().map(|k| sub(b, *k)).collect();
                let moved: Vec<Tm> = p.cell.k.iter().map(|k| add(mul(a, *k), b)).collect();
                let mut fa = p.cell.facts.clone();
                if !fa.contradictory() { fa = fa.with_sign(a, POS); }
                let mut todo = vec![("a spline on moved and stretched knots is the same curve", moved, &cps, add(mul(a, p.t), b), fa)];
                if !at_jump { todo.push(("a mirrored spline is the same curve backwards", mirrored, &rev, sub(b, p.t), p.cell.facts.clone())); }
                for (rule, ks, cp, t, f) in todo {
                    let run = ck.run(&format!("{}::eval", m), &format!("{}, {}", sh.name(), p.name), vec![fk(&ks), pv(cp), tv(t)], f);
                    ck.expect(rule, &run, &|_, v| {
                        if int(v, &[0])? != 0 { return Err(format!("code {}", int(v, &[0])?)); }
                        (0..d).map(|k| Ok((AX[k].to_string(), num(v, &[1, k])?, want[k]))).collect()
                    });
                }
            }
        }
        ck.set_soft(false);
    }
}
