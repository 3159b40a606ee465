//! Every public operation returns on every path (C17).
use crate::ck::*;
use crate::ir::TyI;
use crate::term::*;
use crate::value::*;
use crate::spline;

fn mk(ck: &mut Ck, t: rustc_public::ty::Ty, n: &str, int: i128, sym: &dyn Fn(&str) -> Tm) -> Val {
    let ti = ck.it.cx.ty(t);
    match &ti.k {
        TyI::Array(e, k) => agg(0, (0..*k).map(|i| mk(ck, *e, &format!("{}_{}", n, i), int, sym)).collect()),
        TyI::Float(_) => Val::F(sym(n)),
        TyI::Int { .. } => Val::I(int),
        _ => Val::Unit,
    }
}
fn returns(ck: &mut Ck, name: &str, case: &str, args: Vec<Val>, f: Facts, join: bool) {
    ck.it.join = join;
    let (run, bad) = ck.run_raw(name, case, args, f, true);
    ck.it.join = false;
    if bad == 0 && !run.outs.is_empty() { let n = run.outs.len(); ck.ob("every path returns", &run, "", Ok(format!("{} paths, all return", n))); }
}
pub fn c17(ck: &mut Ck) {
    let names: Vec<String> = ck.ents.keys().cloned().collect();
    for name in names {
        let (m, op) = match name.split_once("::") { Some((a, b)) => (a.to_string(), b.to_string()), None => continue };
        if m.contains("::") || op == "int_ops" { continue; }
        let inst = ck.ents[&name];
        let tys: Vec<rustc_public::ty::Ty> = match inst.body() { Some(b) => b.arg_locals().iter().map(|l| l.ty).collect(), None => continue };
        let parts: Vec<&str> = m.split('_').collect();
        let d = parts[0].get(1..).and_then(|x| x.parse().ok()).unwrap_or(1);
        if d > 139 || (parts.len() > 1 && (parts[1].starts_with('h') || parts[1].starts_with('z'))) { continue; }
        ck.set_soft(d > 8);
        ck.it.max_parts = 20_000;
        let is_spline = parts.len() == 3 && (parts[1].starts_with('s'));
        if is_spline { splines(ck, &name, &m, &op, d, &parts); continue; }
        let ints: Vec<i128> = if op.ends_with("axis") || op.ends_with("_dd") { (0..d as i128).collect() }
            else if op.ends_with("arclen") { if ck.thorough { vec![0, 1, 2, 3, 5, 17, 64] } else { vec![0, 1, 2, 5] } }
            else { vec![0] };
        let n: usize = parts.get(1).and_then(|x| x.trim_start_matches(|c: char| c.is_alphabetic()).parse().ok()).unwrap_or(0);
        if op == "dist" && n > (if ck.thorough { 16 } else { 5 }) { continue; }
        if op == "dist" && !ck.thorough && d > 2 && n > 3 { continue; }
        for k in ints {
            let case = if tys.len() > 1 && (op.ends_with("axis") || op.ends_with("_dd") || op.ends_with("arclen")) { format!("index/steps = {}", k) } else { String::new() };
            if op.ends_with("bbox") && d > 1 {
                let np = if op.starts_with("line") { 2 } else if op.starts_with("quad") { 3 } else { 4 };
                for kk in 0..d { let c = crate::rules::pts_one(np, d, kk, 0); returns(ck, &name, &format!("coordinate {} symbolic", AX[kk]), vec![pv(&c)], Facts::new(), false); }
                if d == 2 && np <= 3 { let c = pts(np, d); returns(ck, &name, "", vec![pv(&c)], Facts::new(), false); }
                continue;
            }
            let mut args = vec![];
            for (i, t) in tys.iter().enumerate() { args.push(mk(ck, *t, ["a", "b", "e", "h"][i.min(3)], k, &|n| var(n))); }
            returns(ck, &name, &case, args, Facts::new(), op.ends_with("dist") && op != "line_dist");
            // the parameter may also be 0, 1, or not finite for evaluation and splitting
            if (op.ends_with("eval") || op.ends_with("casteljau") || op.ends_with("split")) && tys.len() == 2 {
                for (nm, x) in [("0", 0.0), ("1", 1.0), ("-1", -1.0), ("2", 2.0), ("NaN", f64::NAN), ("inf", f64::INFINITY)] {
                    let a0 = mk(ck, tys[0], "a", 0, &|n| var(n));
                    returns(ck, &name, &format!("t = {}", nm), vec![a0, tv(cf(x))], Facts::new(), false);
                }
            }
        }
    }
    ck.set_soft(false);
    crate::long::c17(ck);
}
fn splines(ck: &mut Ck, name: &str, m: &str, op: &str, d: usize, parts: &[&str]) {
    let inst = ck.ents[name];
    // clone_from: the spline that is overwritten
    let more = |ck: &mut Ck, name: &str, case: &str, mut a: Vec<Val>, f: Facts, j: bool| {
        if name.ends_with("::clone_from") {
            let (kn, c) = match (&a[0], &a[1]) { (Val::A(k), Val::A(c)) => (k.f.len(), c.f.len()), _ => (0, 0) };
            a.push(fv(&(0..kn).map(|i| ci(i as i128)).collect::<Vec<_>>()));
            a.push(pv(&(0..c).map(|i| pt(&format!("Q{}", i), d)).collect::<Vec<_>>()));
        }
        returns(ck, name, case, a, f, j)
    };
    let nargs = inst.body().map(|b| b.arg_locals().len()).unwrap_or(0);
    let g: usize = parts[1].trim_start_matches(|c: char| c.is_alphabetic()).parse().unwrap_or(0);
    let c: usize = parts[2].parse().unwrap_or(1);
    let kn = g + c + 1;
    let _ = m;
    if op == "clone_from" && kn > (if ck.thorough { 10 } else { 6 }) { return; }
    if op == "clone" && kn > 12 && !ck.thorough { return; }
    let cps = pts(c, d);
    let lim = match (ck.thorough, op) { (true, "clone") => 8, (true, _) => 10, (_, "clone" | "clone_from" | "deriv_knots") => 5, _ => if d > 1 { 6 } else { 7 } };
    // no assumption on the knots at all
    ck.set_soft(kn > 28);
    if kn <= 5 && op != "arclen" {
        let ks: Vec<Tm> = (0..kn).map(|i| var(&format!("k{}", i))).collect();
        let mut a = vec![fv(&ks), pv(&cps)];
        if nargs > 2 { a.push(tv(var("t"))); }
        more(ck, name, "symbolic knots", a, Facts::new(), false);
    }
    // one NaN knot
    for p in 0..kn {
        let ks: Vec<Tm> = (0..kn).map(|i| if i == p { cf(f64::NAN) } else { ci(i as i128) }).collect();
        let mut a = vec![fv(&ks), pv(&cps)];
        if nargs > 2 { a.push(if op == "arclen" { iv(3) } else { tv(var("t")) }); }
        more(ck, name, &format!("knot {} = NaN", p), a, Facts::new(), false);
    }
    for sh in spline::shapes(ck, g, c, lim, false) {
        ck.set_soft(sh.gaps.is_some());
        let ps = spline::positions(&sh);
        if op == "arclen" {
            let base = &ps[0].cell;
            let vals: Vec<Tm> = (0..sh.mult.len()).map(|j| ci((j * (j + 1) / 2) as i128)).collect();
            let ks: Vec<Tm> = base.grp.iter().map(|j| vals[*j]).collect();
            for n in [0usize, 1, 3] { more(ck, name, &format!("{} n = {}", sh.name(), n), vec![fv(&ks), pv(&cps), iv(n)], Facts::new(), false); }
            continue;
        }
        if nargs == 2 { more(ck, name, &sh.name(), vec![fv(&ps[0].cell.k), pv(&cps)], ps[0].cell.facts.clone(), false); continue; }
        for p in &ps { more(ck, name, &format!("{}, {}", sh.name(), p.name), vec![fv(&p.cell.k), pv(&cps), tv(p.t)], p.cell.facts.clone(), false); }
        for x in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] { more(ck, name, &format!("{}, t = {}", sh.name(), x), vec![fv(&ps[0].cell.k), pv(&cps), tv(cf(x))], ps[0].cell.facts.clone(), false); }
    }
    ck.set_soft(false);
}
