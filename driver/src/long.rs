//! Long curves, splines and points: a few hundred control points, knots or
//! coordinates, more than the narrow integer types can count.
use crate::ck::*;
use crate::rat::*;
use crate::rules::{exact_same, Shape as Curve};
use crate::spline::{self, Cell, Pos, Shape};
use crate::term::*;
use crate::value::*;

fn at(x: Tm) -> Tm { add(var("w"), mul(x, var("u"))) }
fn even(n: usize) -> Vec<Vec<Tm>> { (0..n).map(|j| vec![at(ci(j as i128))]).collect() }
fn curves(ck: &Ck, kind: &str, op: &str) -> Vec<Curve> { ck.beziers(kind, op).into_iter().filter(|s| s.d == 1).collect() }
fn soft(ck: &mut Ck, f: &mut dyn FnMut(&mut Ck)) {
    let s = ck.soft_s;
    ck.soft_s = if ck.thorough { 100 } else { 30 };
    ck.softly(f);
    ck.soft_s = s;
}
/// all levels of de Casteljau's scheme: [level][index]
fn levels(c: &[Vec<Tm>], t: Tm) -> Vec<Vec<Tm>> {
    let u = sub(ci(1), t);
    let mut out: Vec<Vec<Tm>> = vec![c.iter().map(|x| x[0]).collect()];
    while out[out.len() - 1].len() > 1 { let l = &out[out.len() - 1]; let n = (0..l.len() - 1).map(|j| add(mul(l[j], u), mul(l[j + 1], t))).collect(); out.push(n); }
    out
}
fn value_at(c: &[Vec<Tm>], t: Tm) -> Tm { levels(c, t).last().unwrap()[0] }
/// the formulas are compared by their residues
fn by_residue(ck: &mut Ck, f: &mut dyn FnMut(&mut Ck)) {
    set_fingers(true);
    soft(ck, f);
    set_fingers(false);
}
pub fn c01(ck: &mut Ck) {
    let t = var("t");
    by_residue(ck, &mut |ck| for op in ["eval", "spline_eval"] { for s in curves(ck, "h", op) {
        let c = pts(s.n, 1);
        let run = ck.run(&format!("{}::{}", s.m, op), "", vec![pv(&c), tv(t)], Facts::new());
        let w = value_at(&c, t);
        ck.expect("value = sum of Bernstein weights times control points", &run, &|_, v| Ok(vec![("value".into(), num(v, &[0])?, w)]));
    } });
}
pub fn c03(ck: &mut Ck) {
    let t = var("t");
    by_residue(ck, &mut |ck| for s in curves(ck, "h", "split") {
        let c = pts(s.n, 1);
        let run = ck.run(&format!("{}::split", s.m), "", vec![pv(&c), tv(t)], Facts::new());
        let l = levels(&c, t);
        ck.expect("split control points = blossom values b(0..0,t..t) and b(t..t,1..1)", &run, &|_, v| {
            let mut o = vec![];
            for j in 0..s.n {
                o.push((format!("left[{}]", j), num(v, &[0, j, 0])?, l[j][0]));
                o.push((format!("right[{}]", j), num(v, &[1, j, 0])?, l[s.n - 1 - j][j]));
            }
            Ok(o)
        });
    });
}
pub fn c05(ck: &mut Ck) {
    let t = var("t");
    by_residue(ck, &mut |ck| for s in curves(ck, "hd", "deriv_eval") {
        let n = s.n - 1;
        let c = pts(s.n, 1);
        let h: Vec<Vec<Tm>> = (0..n).map(|j| vec![mul(ci(n as i128), sub(c[j + 1][0], c[j][0]))]).collect();
        let run = ck.run(&format!("{}::deriv", s.m), "", vec![pv(&c)], Facts::new());
        ck.expect("derivative = hodograph of the Bernstein form", &run, &|_, v| {
            if int(v, &[0])? != n as i128 { return Err(format!("derivative has {} control points instead of {}", int(v, &[0])?, n)); }
            (0..n).map(|j| Ok((format!("derivative control point {}", j), num(v, &[1, j, 0])?, h[j][0]))).collect()
        });
        let run = ck.run(&format!("{}::deriv_eval", s.m), "", vec![pv(&c), tv(t)], Facts::new());
        let w = value_at(&h, t);
        ck.expect("derivative = hodograph of the Bernstein form", &run, &|_, v| Ok(vec![("derivative".into(), num(v, &[0])?, w)]));
    });
}
pub fn c10(ck: &mut Ck) {
    // only dyadic parameters: powers of others leave the exact rationals
    by_residue(ck, &mut |ck| for s in curves(ck, "h", "arclen") { for m in if ck.thorough { vec![1usize, 2] } else { vec![1] } {
        let c = pts(s.n, 1);
        let run = ck.run(&format!("{}::arclen", s.m), &format!("n = {}", m), vec![pv(&c), iv(m)], Facts::new());
        let p: Vec<Vec<Tm>> = (0..=m).map(|i| vec![value_at(&c, cr(Rat::new(i as i128, m as i128)))]).collect();
        let w = crate::rules::chord_sum(&p);
        ck.expect("arc length = sum of the n chords between i/n and (i+1)/n", &run, &|_, v| Ok(vec![("length".into(), num(v, &[])?, w)]));
    } });
}
pub fn c17(ck: &mut Ck) {
    let rule = "every path returns";
    let go = |ck: &mut Ck, name: String, case: String, args: Vec<Val>, f: Facts| {
        if !ck.has(&name) { return; }
        let (run, bad) = ck.run_raw(&name, &case, args, f, true);
        if bad == 0 && !run.outs.is_empty() { let n = run.outs.len(); ck.ob(rule, &run, "", Ok(format!("{} paths, all return", n))); }
    };
    soft(ck, &mut |ck| {
        for s in curves(ck, "h", "eval") {
            let c = even(s.n);
            for op in ["eval", "spline_eval", "split"] { go(ck, format!("{}::{}", s.m, op), "evenly spaced".into(), vec![pv(&c), tv(var("t"))], Facts::new()); }
            for n in [0usize, 1, 2] { go(ck, format!("{}::arclen", s.m), format!("evenly spaced, n = {}", n), vec![pv(&c), iv(n)], Facts::new()); }
            for op in ["cps", "clone", "iter"] { go(ck, format!("{}::{}", s.m, op), "evenly spaced".into(), vec![pv(&c)], Facts::new()); }
        }
        for s in curves(ck, "hd", "deriv") {
            let c = even(s.n);
            go(ck, format!("{}::deriv", s.m), "evenly spaced".into(), vec![pv(&c)], Facts::new());
            go(ck, format!("{}::deriv_eval", s.m), "evenly spaced".into(), vec![pv(&c), tv(var("t"))], Facts::new());
        }
        for kind in ["z", "zd"] { for (m, d, g, c) in ck.bsplines(kind, if kind == "z" { "eval" } else { "deriv_eval" }) { if d != 1 { continue; } for sh in shapes(g, c) { for p in places(&sh, c) {
            for op in ["eval", "deriv_eval"] { go(ck, format!("{}::{}", m, op), format!("{}, {}", short_name(&sh), p.name), vec![fv(&p.cell.k), pv(&pts(c, 1)), tv(p.t)], p.cell.facts.clone()); }
        } } } }
    });
    // very many steps: what is computed from the number of them before and in the first ones
    let mut list: Vec<(String, Vec<Val>)> = vec![("p1::quad_arclen".into(), vec![pv(&pts(3, 1))]), ("p1::cubic_arclen".into(), vec![pv(&pts(4, 1))])];
    for s in ck.beziers("b", "arclen") { if s.d == 1 && s.n <= 4 { list.push((format!("{}::arclen", s.m), vec![pv(&pts(s.n, 1))])); } }
    for (m, d, g, c) in ck.bsplines("s", "arclen") { if d == 1 && g + c + 1 <= 8 {
        let ks: Vec<Tm> = (0..g + c + 1).map(|i| ci(i as i128)).collect();
        list.push((format!("{}::arclen", m), vec![fv(&ks), pv(&pts(c, 1))]));
    } }
    soft(ck, &mut |ck| for (e, a) in &list {
        if !ck.has(e) { continue; }
        for n in [1usize << 32, 1 << 48, 1 << 62] {
            ck.it.max_steps = 20_000;
            ck.prefix = true;
            let mut a = a.clone();
            a.push(iv(n));
            let (run, bad) = ck.run_raw(e, &format!("first steps of n = {}", n), a, Facts::new(), true);
            ck.prefix = false;
            if bad == 0 { ck.ob("no panic in the first of very many steps", &run, "", Ok("none in 20000 statements".into())); }
        }
    });
}
pub fn c18(ck: &mut Ck) {
    soft(ck, &mut |ck| for d in [256usize, 257, 300] {
        let m = format!("v{}", d);
        if !ck.has(&format!("{}::add", m)) { continue; }
        let v = |n: &str| -> Vec<Tm> { (0..d).map(|k| var(&format!("{}{}", n, k))).collect() };
        let (a, b, s) = (v("A"), v("B"), var("s"));
        let e = |op: &str| format!("{}::{}", m, op);
        let list = |x: &Val, p: &[usize], w: &[Tm]| -> Result<Vec<(String, Tm, Tm)>, String> { (0..d).map(|k| { let mut q = p.to_vec(); q.push(k); Ok((format!("coordinate {}", k), num(x, &q)?, w[k])) }).collect() };
        let per = |f: &dyn Fn(usize) -> Tm| -> Vec<Tm> { (0..d).map(|k| f(k)).collect() };
        for (op, rhs, want) in [
            ("add", fv(&b), per(&|k| add(a[k], b[k]))), ("sub", fv(&b), per(&|k| sub(a[k], b[k]))),
            ("mul", tv(s), per(&|k| mul(a[k], s))), ("adds", tv(s), per(&|k| add(a[k], s))), ("subs", tv(s), per(&|k| sub(a[k], s))),
        ] {
            let run = ck.run(&e(op), "", vec![fv(&a), rhs], Facts::new());
            ck.expect("operator acts coordinate by coordinate", &run, &|_, v| list(v, &[], &want));
        }
        for k in [0, 1, 127, 128, 254, 255, 256, 257, d - 2, d - 1] {
            if k >= d { continue; }
            let run = ck.run(&e("axis"), &format!("axis {}", k), vec![fv(&a), iv(k)], Facts::new());
            ck.expect("axis(i) is the i-th coordinate", &run, &|_, v| Ok(vec![("value".into(), num(v, &[])?, a[k])]));
            // one coordinate differs, the others are identical
            let mut b2 = a.clone();
            b2[k] = b[k];
            for op in ["eq", "ne"] {
                let run = ck.run(&e(op), &format!("only coordinate {} may differ", k), vec![fv(&a), fv(&b2)], Facts::new());
                let w = if op == "eq" { eq(a[k], b[k]) } else { not(eq(a[k], b[k])) };
                for (i, (f, v)) in run.outs.iter().enumerate() {
                    let r: Rs = (|| cond_equiv(f, boolean(v)?, w, 24))();
                    ck.ob("equal exactly when all coordinates are equal", &run, &format!("partition {}", i), r);
                }
            }
        }
        let run = ck.run(&e("dim"), "", vec![], Facts::new());
        for (_, v) in &run.outs { let r: Rs = (|| if int(v, &[])? == d as i128 { Ok(format!("DIM = {}", d)) } else { Err(format!("DIM = {}", int(v, &[])?)) })(); ck.ob("DIM is the number of coordinates", &run, "", r); }
        let run = ck.run(&e("sqlen"), "", vec![fv(&a)], Facts::new());
        let w = sum((0..d).map(|k| mul(a[k], a[k])));
        ck.expect("squared length is the sum of the squared coordinates", &run, &|_, v| Ok(vec![("value".into(), num(v, &[])?, w)]));
        let count = |v: &Val| -> Result<(), String> { let k = int(v, &[0])?; if k == d as i128 { Ok(()) } else { Err(format!("{} items instead of {}", k, d)) } };
        let run = ck.run(&e("iter"), "", vec![fv(&a)], Facts::new());
        ck.expect("iteration yields the coordinates in order", &run, &|_, v| { count(v)?; list(v, &[1], &a) });
        let run = ck.run(&e("iter_mut"), "", vec![fv(&a), fv(&b)], Facts::new());
        ck.expect("mutable iteration visits each coordinate once and writes through", &run, &|_, v| { count(v)?; let mut o = list(v, &[1], &a)?; o.extend(list(v, &[2], &b)?); Ok(o) });
    });
}
/// exact end points, join points and copies of long curves
pub fn c04(ck: &mut Ck) {
    let t = var("t");
    soft(ck, &mut |ck| for s in curves(ck, "h", "split") {
        let (n, c) = (s.n, pts(s.n, 1));
        let run = ck.run(&format!("{}::split", s.m), "", vec![pv(&c), tv(t)], Facts::new());
        for (i, (f, v)) in run.outs.iter().enumerate() {
            let chk = |a: Result<Tm, String>, b: Result<Tm, String>| -> Rs { bits_same(f, a?, b?) };
            let part = format!("partition {}", i);
            ck.ob("join point: one value number on both sides", &run, &part, chk(num(v, &[0, n - 1, 0]), num(v, &[1, 0, 0])));
            ck.ob("left part starts with a copy of the first control point", &run, &part, chk(num(v, &[0, 0, 0]), Ok(c[0][0])));
            ck.ob("right part ends with a copy of the last control point", &run, &part, chk(num(v, &[1, n - 1, 0]), Ok(c[n - 1][0])));
        }
    });
}
pub fn c24(ck: &mut Ck) {
    soft(ck, &mut |ck| for op in ["eval", "spline_eval"] { for s in curves(ck, "h", op) { for (tv_, j) in [(0, 0), (1, s.n - 1)] {
        let c = pts(s.n, 1);
        let run = ck.run(&format!("{}::{}", s.m, op), &format!("t = {}", tv_), vec![pv(&c), tv(ci(tv_))], Facts::new());
        for (i, (f, v)) in run.outs.iter().enumerate() { let r: Rs = (|| exact_same(f, num(v, &[0])?, c[j][0]))(); ck.ob("exact end point", &run, &format!("partition {}", i), r); }
    } } });
}
/// c21 (accessors, iteration) and c28 (clones)
pub fn copies(ck: &mut Ck, rule: &str, ops: &[&str]) {
    soft(ck, &mut |ck| for s in curves(ck, "h", "cps") {
        let n = s.n;
        let (c, w) = (pts(n, 1), (0..n).map(|i| vec![var(&format!("W{}", i))]).collect::<Vec<_>>());
        for op in ops {
            let mut args = vec![pv(&c)];
            if *op == "iter_mut" || *op == "clone_from" { args.push(pv(&w)); }
            let run = ck.run(&format!("{}::{}", s.m, op), "", args, Facts::new());
            for (i, (f, v)) in run.outs.iter().enumerate() {
                let r: Rs = (|| {
                    let copy = |p: &[usize], want: &Vec<Vec<Tm>>| -> Rs { for j in 0..n { let mut q = p.to_vec(); q.extend([j, 0]); bits_same(f, num(v, &q)?, want[j][0]).map_err(|e| format!("control point {}: {}", j, e))?; } Ok("the same numbers".into()) };
                    if op.starts_with("iter") && int(v, &[0])? != n as i128 { return Err(format!("{} items instead of {}", int(v, &[0])?, n)); }
                    if op.starts_with("iter") { copy(&[1], &c)?; } else { copy(&[], &c)?; }
                    if *op == "iter_mut" { copy(&[2], &w)?; }
                    Ok("the same numbers".into())
                })();
                ck.ob(rule, &run, &format!("partition {}", i), r);
            }
        }
    });
}
pub fn c22(ck: &mut Ck) {
    let t = var("t");
    let rule = "coordinate k = the one-dimensional operation on coordinate k";
    by_residue(ck, &mut |ck| {
        for s in ck.beziers("h", "eval") {
            if s.d == 1 { continue; }
            let c = pts(s.n, s.d);
            let one: Vec<Vec<Vec<Tm>>> = (0..s.d).map(|k| levels(&c.iter().map(|x| vec![x[k]]).collect::<Vec<_>>(), t)).collect();
            let run = ck.run(&format!("{}::eval", s.m), "", vec![pv(&c), tv(t)], Facts::new());
            ck.expect(rule, &run, &|_, v| (0..s.d).map(|k| Ok((AX[k].to_string(), num(v, &[k])?, one[k][s.n - 1][0]))).collect());
            let run = ck.run(&format!("{}::split", s.m), "", vec![pv(&c), tv(t)], Facts::new());
            ck.expect(rule, &run, &|_, v| {
                let mut o = vec![];
                for j in 0..s.n { for k in 0..s.d {
                    o.push((format!("left[{}] {}", j, AX[k]), num(v, &[0, j, k])?, one[k][j][0]));
                    o.push((format!("right[{}] {}", j, AX[k]), num(v, &[1, j, k])?, one[k][s.n - 1 - j][j]));
                } }
                Ok(o)
            });
        }
        for s in ck.beziers("hd", "deriv") {
            if s.d == 1 { continue; }
            let (c, n) = (pts(s.n, s.d), s.n - 1);
            let run = ck.run(&format!("{}::deriv", s.m), "", vec![pv(&c)], Facts::new());
            ck.expect(rule, &run, &|_, v| {
                let mut o = vec![];
                for j in 0..n { for k in 0..s.d { o.push((format!("derivative control point {} {}", j, AX[k]), num(v, &[1, j, k])?, mul(ci(n as i128), sub(c[j + 1][k], c[j][k])))); } }
                Ok(o)
            });
        }
    });
    soft(ck, &mut |ck| for (m, d, g, c) in ck.bsplines("z", "eval") { if d == 1 { continue; } for sh in shapes(g, c) {
        let cps = pts(c, d);
        for p in places(&sh, c) {
            if !spline::in_domain(&p.cell, g, c, p.ord) { continue; }
            let want: Vec<Tm> = (0..d).map(|k| value(&p.cell, g, c, p.ord, p.t, &col(&cps, k), g)).collect();
            let run = ck.run(&format!("{}::eval", m), &format!("{}, {}", short_name(&sh), p.name), vec![fv(&p.cell.k), pv(&cps), tv(p.t)], p.cell.facts.clone());
            ck.expect(rule, &run, &|_, v| { if int(v, &[0])? != 0 { return Err(format!("code {}", int(v, &[0])?)); } (0..d).map(|k| Ok((AX[k].to_string(), num(v, &[1, k])?, want[k]))).collect() });
        }
    } });
}
/// equal control points: the weights sum to one
pub fn c23(ck: &mut Ck) {
    let (t, p) = (var("t"), var("P0x"));
    let rule = "weights sum to one";
    by_residue(ck, &mut |ck| {
        for s in curves(ck, "h", "eval") {
            let c = vec![vec![p]; s.n];
            for op in ["eval", "spline_eval"] {
                let run = ck.run(&format!("{}::{}", s.m, op), "equal control points", vec![pv(&c), tv(t)], Facts::new());
                ck.expect(rule, &run, &|_, v| Ok(vec![("value".into(), num(v, &[0])?, p)]));
            }
            let run = ck.run(&format!("{}::split", s.m), "equal control points", vec![pv(&c), tv(t)], Facts::new());
            ck.expect(rule, &run, &|_, v| { let mut o = vec![]; for h in 0..2 { for j in 0..s.n { o.push((format!("part {} control point {}", h, j), num(v, &[h, j, 0])?, p)); } } Ok(o) });
        }
        for s in curves(ck, "hd", "deriv") {
            let run = ck.run(&format!("{}::deriv", s.m), "equal control points", vec![pv(&vec![vec![p]; s.n])], Facts::new());
            ck.expect("weights sum to zero", &run, &|_, v| (0..s.n - 1).map(|j| Ok((format!("derivative control point {}", j), num(v, &[1, j, 0])?, ci(0)))).collect());
        }
    });
    each(ck, "z", "eval", &|ck, m, g, c, sh| for q in places(sh, c) {
        if !spline::in_domain(&q.cell, g, c, q.ord) { continue; }
        let run = ck.run(&format!("{}::eval", m), &format!("{}, {}, equal control points", short_name(sh), q.name), vec![fv(&q.cell.k), pv(&vec![vec![p]; c]), tv(q.t)], q.cell.facts.clone());
        ck.expect(rule, &run, &|_, v| { if int(v, &[0])? != 0 { return Err(format!("code {}", int(v, &[0])?)); } Ok(vec![("value".into(), num(v, &[1, 0])?, p)]) });
    });
}
pub fn c31(ck: &mut Ck) {
    each(ck, "z", "eval", &|ck, m, g, c, sh| {
        let cps = pts(c, 1);
        for p in places(sh, c) {
            if !spline::in_domain(&p.cell, g, c, p.ord) { continue; }
            let cl = &p.cell;
            let mut atoms = std::collections::HashMap::new();
            for j in 0..c { atoms.insert(atom_of(cps[j][0]).unwrap(), j); }
            let run = ck.run(&format!("{}::eval", m), &format!("{}, {}", short_name(sh), p.name), vec![fv(&cl.k), pv(&cps), tv(p.t)], cl.facts.clone());
            for (i, (f, v)) in run.outs.iter().enumerate() {
                let r: Rs = (|| {
                    if int(v, &[0])? != 0 { return Err(format!("code {}", int(v, &[0])?)); }
                    let val = f.nf(num(v, &[1, 0])?).ok_or("value without a normal form")?;
                    let mut act = std::collections::BTreeSet::new();
                    for (mono, _) in &val.num.t { for (a, _) in mono.iter() { if let Some(j) = atoms.get(a) { act.insert(*j); } } }
                    for j in &act { if p.ord < 2 * cl.grp[*j] as i64 || p.ord > 2 * cl.grp[*j + g + 1] as i64 { return Err(format!("control point {} acts outside its knots", j)); } }
                    Ok(format!("{} of {} control points act", act.len(), c))
                })();
                ck.ob("a control point only acts between knots j and j + D + 1", &run, &format!("partition {}", i), r);
            }
        }
    });
}
pub fn c32(ck: &mut Ck) {
    let (t, a, b) = (var("t"), var("a"), var("b"));
    by_residue(ck, &mut |ck| for s in curves(ck, "h", "eval") {
        let c = pts(s.n, 1);
        let r: Vec<Vec<Tm>> = c.iter().rev().cloned().collect();
        let u = sub(ci(1), t);
        let l = levels(&c, t);
        let run = ck.run(&format!("{}::eval", s.m), "", vec![pv(&r), tv(u)], Facts::new());
        ck.expect("reversed control points give the same curve backwards", &run, &|_, v| Ok(vec![("point".into(), num(v, &[0])?, l[s.n - 1][0])]));
        let run = ck.run(&format!("{}::split", s.m), "", vec![pv(&r), tv(u)], Facts::new());
        ck.expect("the parts of a reversed curve are the reversed parts", &run, &|_, v| {
            let mut o = vec![];
            for j in 0..s.n {
                o.push((format!("left[{}]", j), num(v, &[0, j, 0])?, l[j][s.n - 1 - j]));
                o.push((format!("right[{}]", j), num(v, &[1, j, 0])?, l[s.n - 1 - j][0]));
            }
            Ok(o)
        });
    });
    each(ck, "z", "eval", &|ck, m, g, c, sh| {
        let cps = pts(c, 1);
        let col: Vec<Tm> = cps.iter().map(|x| x[0]).collect();
        let rev: Vec<Vec<Tm>> = cps.iter().rev().cloned().collect();
        for p in places(sh, c) {
            if !spline::in_domain(&p.cell, g, c, p.ord) { continue; }
            let want = value(&p.cell, g, c, p.ord, p.t, &col, g);
            let mirrored: Vec<Tm> = p.cell.k.iter().rev().map(|k| sub(b, *k)).collect();
            let moved: Vec<Tm> = p.cell.k.iter().map(|k| add(mul(a, *k), b)).collect();
            let mut fa = p.cell.facts.clone();
            if !fa.contradictory() { fa = fa.with_sign(a, POS); }
            for (rule, ks, cp, t, f) in [("a spline on moved and stretched knots is the same curve", moved, &cps, add(mul(a, p.t), b), fa), ("a mirrored spline is the same curve backwards", mirrored, &rev, sub(b, p.t), p.cell.facts.clone())] {
                let run = ck.run(&format!("{}::eval", m), &format!("{}, {}", short_name(sh), p.name), vec![fv(&ks), pv(cp), tv(t)], f);
                ck.expect(rule, &run, &|_, v| { if int(v, &[0])? != 0 { return Err(format!("code {}", int(v, &[0])?)); } Ok(vec![("value".into(), num(v, &[1, 0])?, want)]) });
            }
        }
    });
}
/// chords of curves of every analysed size
pub fn c10_sizes(ck: &mut Ck, lim: usize) {
    let sizes: Vec<Curve> = ck.beziers("b", "arclen").into_iter().filter(|s| s.n > lim).collect();
    by_residue(ck, &mut |ck| for s in &sizes { for m in 1..=(if s.d > 1 || s.n > 20 && !ck.thorough { 2usize } else { 4 }) {
        let c = pts(s.n, s.d);
        let run = ck.run(&format!("{}::arclen", s.m), &format!("n = {}", m), vec![pv(&c), iv(m)], Facts::new());
        let at = |k: usize, t: Tm| value_at(&c.iter().map(|x| vec![x[k]]).collect::<Vec<_>>(), t);
        let p: Vec<Vec<Tm>> = (0..=m).map(|i| (0..s.d).map(|k| at(k, cr(Rat::new(i as i128, m as i128)))).collect()).collect();
        let w = crate::rules::chord_sum(&p);
        ck.expect("arc length = sum of the n chords between i/n and (i+1)/n", &run, &|_, v| Ok(vec![("length".into(), num(v, &[])?, w)]));
    } });
}
/// distance for every analysed number of control points: evenly spaced control points show
/// the parameters, control points without a relation show the curve points at i/64
pub fn c09(ck: &mut Ck, lim: usize) {
    let q = var("qx");
    let sizes: Vec<Curve> = ck.beziers("b", "dist").into_iter().filter(|s| s.d == 1 && s.n > lim).collect();
    let lits: Vec<usize> = crate::lints::literals().into_iter().filter(|l| *l > 22 && ![54, 64].contains(l)).collect();
    soft(ck, &mut |ck| for s in &sizes {
        let near = lits.iter().any(|l| s.n >= *l && s.n <= *l + 1);
        if !(s.n <= 22 || s.n == 34 || s.n == 65 || (s.n <= 100 && (near || ck.thorough))) { continue; }
        ck.it.max_steps = 500_000_000;
        let run = ck.run_join(&format!("{}::dist", s.m), "evenly spaced control points", vec![pv(&even(s.n)), fv(&[q])], Facts::new());
        for (i, (f, v)) in run.outs.iter().enumerate() { crate::rules::dist_even(ck, &run, &format!("partition {}", i), f, v, s.n, q); }
        let (p, u) = (pts(s.n, 1), var("u"));
        let c: Vec<Vec<Tm>> = p.iter().enumerate().map(|(j, x)| vec![add(x[0], mul(ci(j as i128), u))]).collect();
        let p: Vec<Tm> = p.iter().map(|x| x[0]).collect();
        let run = ck.run_join(&format!("{}::dist", s.m), "", vec![pv(&c), fv(&[q])], Facts::new());
        for (i, (_, v)) in run.outs.iter().enumerate() { crate::rules::dist_any(ck, &run, &format!("partition {}", i), v, &p, q, u); }
        for (i, (_, v)) in run.outs.iter().enumerate() { crate::rules::dist_grid(ck, &run, &format!("partition {}", i), v, &|t| { let d = sub(value_at(&c, t), q); mul(d, d) }); }
    });
}
// ---- long B-splines: clamped and uniform, unit spans
fn shapes(g: usize, c: usize) -> Vec<Shape> {
    let kn = g + c + 1;
    let mut m = vec![g + 1];
    m.extend(vec![1; kn - 2 * (g + 1)]);
    m.push(g + 1);
    [m, vec![1; kn]].into_iter().map(|mult| Shape { mult, gaps: Some(0) }).collect()
}
fn short_name(s: &Shape) -> String { format!("{} uniform knots, ends {}", s.mult.iter().sum::<usize>(), s.mult[0]) }
fn places(sh: &Shape, c: usize) -> Vec<Pos> {
    let g = sh.mult.len() as i64;
    let near = [0, 1, 4, 63, 127, 128, 129, 200, 252, 254, 255, 256, 257, 258, c as i64 - 3, g - 6, g - 5, g - 4, g - 3, g - 2, g - 1];
    spline::positions(sh).into_iter().filter(|p| near.contains(&p.ord.div_euclid(2)) || p.ord < 0).collect()
}
fn each(ck: &mut Ck, kind: &str, op: &str, f: &dyn Fn(&mut Ck, &str, usize, usize, &Shape)) {
    soft(ck, &mut |ck| for (m, d, g, c) in ck.bsplines(kind, op) { if d != 1 { continue; } for sh in shapes(g, c) { f(ck, &m, g, c, &sh); } });
}
pub fn c11(ck: &mut Ck) {
    each(ck, "z", "new", &|ck, m, g, c, sh| {
        let e = format!("{}::new", m);
        let (kn, cps) = (g + c + 1, pts(c, 1));
        let base = spline::positions(sh).remove(0).cell;
        let run = ck.run(&e, &short_name(sh), vec![fv(&base.k), pv(&cps)], base.facts.clone());
        for (f, v) in &run.outs {
            let r: Rs = (|| {
                if int(v, &[0])? != 0 { return Err(format!("code {} for non-decreasing knots", int(v, &[0])?)); }
                if int(v, &[1])? != kn as i128 || int(v, &[3])? != c as i128 { return Err(format!("{} stored knots and {} control points", int(v, &[1])?, int(v, &[3])?)); }
                for i in 0..kn { bits_same(f, num(v, &[2, i])?, base.k[i]).map_err(|e| format!("knot {}: {}", i, e))?; }
                for i in 0..c { bits_same(f, num(v, &[4, i, 0])?, cps[i][0]).map_err(|e| format!("control point {}: {}", i, e))?; }
                Ok(format!("{} knots and {} control points", kn, c))
            })();
            ck.ob("stores the given knots and control points in order", &run, "", r);
        }
        for p in [0usize, 1, 100, 126, 127, 128, 254, 255, 256, 257, 258, kn - 3, kn - 2] {
            for (what, rule) in [("descent after", "accepted <=> knots non-decreasing"), ("NaN at", "a NaN knot is rejected as decreasing")] {
                let mut k = base.k.clone();
                if what.starts_with('d') { for x in &mut k[p + 1..] { *x = sub(*x, ci(1000)); } } else { k[p] = cf(f64::NAN); }
                let run = ck.run(&e, &format!("{}, {} knot {}", short_name(sh), what, p), vec![fv(&k), pv(&cps)], base.facts.clone());
                for (_, v) in &run.outs { let r: Rs = (|| match int(v, &[0])? { 4 => Ok("decreasing-knots error".into()), x => Err(format!("code {}", x)) })(); ck.ob(rule, &run, "", r); }
            }
        }
    });
}
fn value(c: &Cell, g: usize, n: usize, ord: i64, t: Tm, p: &[Tm], deg: usize) -> Tm {
    let _ = deg;
    let s = spline::span(c, g, n, ord);
    spline::combine(&spline::basis(c, g, s, t)[..n], p)
}
pub fn c12(ck: &mut Ck) {
    each(ck, "z", "eval", &|ck, m, g, c, sh| {
        let cps = pts(c, 1);
        for p in places(sh, c) {
            let inside = spline::in_domain(&p.cell, g, c, p.ord);
            let run = ck.run(&format!("{}::eval", m), &format!("{}, {}", short_name(sh), p.name), vec![fv(&p.cell.k), pv(&cps), tv(p.t)], p.cell.facts.clone());
            for (i, (f, v)) in run.outs.iter().enumerate() {
                let r: Rs = (|| { let (x, want) = (int(v, &[0])?, if inside { 0 } else { 5 }); if x == want { Ok("as required".into()) } else { Err(format!("code {} instead of {}; path condition: {}", x, want, path(f))) } })();
                ck.ob("success <=> t in the knot domain", &run, &format!("partition {}", i), r);
            }
        }
        let cl = spline::positions(sh).remove(0).cell;
        let run = ck.run(&format!("{}::domain", m), &short_name(sh), vec![fv(&cl.k), pv(&cps)], cl.facts.clone());
        ck.expect("knot domain = [knot[D], knot[C]]", &run, &|_, v| {
            if int(v, &[0])? != 0 { return Err(format!("code {}", int(v, &[0])?)); }
            Ok(vec![("lower end".into(), num(v, &[1])?, cl.k[g]), ("upper end".into(), num(v, &[2])?, cl.k[c])])
        });
    });
}
pub fn c13(ck: &mut Ck) {
    each(ck, "z", "eval", &|ck, m, g, c, sh| {
        let cps = pts(c, 1);
        let col: Vec<Tm> = cps.iter().map(|x| x[0]).collect();
        for p in places(sh, c) {
            if !spline::in_domain(&p.cell, g, c, p.ord) { continue; }
            let want = value(&p.cell, g, c, p.ord, p.t, &col, g);
            let run = ck.run(&format!("{}::eval", m), &format!("{}, {}", short_name(sh), p.name), vec![fv(&p.cell.k), pv(&cps), tv(p.t)], p.cell.facts.clone());
            ck.expect("value = Cox-de Boor sum", &run, &|_, v| { if int(v, &[0])? != 0 { return Err(format!("code {}", int(v, &[0])?)); } Ok(vec![("value".into(), num(v, &[1, 0])?, want)]) });
        }
    });
}
pub fn c14(ck: &mut Ck) {
    each(ck, "zd", "deriv_eval", &|ck, m, g, c, sh| {
        let cps = pts(c, 1);
        for p in places(sh, c) {
            if !spline::in_domain(&p.cell, g, c, p.ord) { continue; }
            let cl = &p.cell;
            if (1..c).any(|i| cl.grp[i + g] == cl.grp[i] && p.ord == 2 * cl.grp[i] as i64) { continue; }
            let s = spline::span(cl, g, c, p.ord);
            let w = spline::basis(cl, g - 1, s, p.t);
            let want = sum((0..c - 1).filter_map(|i| {
                let x = w[i + 1]?;
                if cl.grp[i + g + 1] == cl.grp[i + 1] { return None; }
                Some(mul(mul(div(ci(g as i128), sub(cl.k[i + g + 1], cl.k[i + 1])), sub(cps[i + 1][0], cps[i][0])), x))
            }));
            let run = ck.run(&format!("{}::deriv_eval", m), &format!("{}, {}", short_name(sh), p.name), vec![fv(&cl.k), pv(&cps), tv(p.t)], cl.facts.clone());
            ck.expect("derivative spline value = derivative of the Cox-de Boor sum", &run, &|_, v| { if int(v, &[0])? != 0 { return Err(format!("code {}", int(v, &[0])?)); } Ok(vec![("value".into(), num(v, &[1, 0])?, want)]) });
        }
    });
}
pub fn c15(ck: &mut Ck) {
    each(ck, "z", "arclen", &|ck, m, g, c, sh| for n in [1usize, 2, 3] { spline::arc(ck, m, 1, g, c, sh, n); });
}
