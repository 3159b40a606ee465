//! Obligation bookkeeping shared by all rules: running an entry point,
//! comparing derived with expected values partition by partition, and
//! reporting the library construct an undischarged obligation is about.
use crate::interp::*;
use crate::poly::*;
use crate::rat::*;
use crate::term::*;
use crate::value::*;
use rustc_public::mir::mono::Instance;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::time::{Duration, Instant};

pub struct Viol { pub rule: String, pub inst: String, pub what: String, pub construct: Vec<String> }
pub struct Ck {
    pub it: Interp,
    pub ents: BTreeMap<String, Instance>,
    pub thorough: bool,
    pub prop: String,
    pub obligations: u64,
    pub discharged: u64,
    pub runs: u64,
    pub viol: Vec<Viol>,
    pub nviol: u64,
    pub per_rule: BTreeMap<String, (u64, u64)>,
    pub samples: Vec<String>,
    pub instances: BTreeSet<String>,
    pub controls: BTreeMap<String, u64>, pub notes: Vec<String>,
    /// deepened instance: what the analysis cannot settle is counted, not reported
    pub soft: bool,
    pub soft_s: u64,
    pub inconclusive: BTreeMap<String, u64>,
    /// no further runs after this moment
    pub end: Instant,
    pub skipped: u64,
    pub first_fail: Option<Instant>,
    /// only the first statements are looked at: running out of them is not a finding
    pub prefix: bool,
}
/// the analysis could not settle the comparison (as opposed to: the values differ)
fn unsettled(m: &str) -> bool {
    ["value without a normal form", "arithmetic range", "cannot relate", "undecided within", "is not shown to be"].iter().any(|x| m.contains(x))
}
pub struct Run { pub name: String, pub case: String, pub outs: Vec<(Facts, Val)>, pub construct: Vec<String> }
pub type Rs = Result<String, String>;

impl Ck {
    pub fn past(&self) -> bool { Instant::now() >= self.end }
    pub fn unclear(&mut self, why: &str) { *self.inconclusive.entry(why.to_string()).or_insert(0) += 1; }
    /// run f with deepened instances: budgets are small and only definite findings count
    pub fn softly(&mut self, f: &mut dyn FnMut(&mut Ck)) {
        let s = self.soft;
        self.set_soft(true);
        f(self);
        self.set_soft(s);
    }
    pub fn set_soft(&mut self, on: bool) {
        self.soft = on;
        self.it.max_parts = if on { 64 } else { 20_000 };
        self.it.max_steps = if on { 2_000_000 * self.soft_s } else { 30_000_000 };
    }
    pub fn ob(&mut self, rule: &str, run: &Run, case: &str, r: Rs) {
        let r = if overflowed() { clear_overflow(); Err("arithmetic range of the analysis exceeded".to_string()) } else { r };
        if let (true, Err(m)) = (self.soft, &r) { if unsettled(m) { self.unclear(rule); return; } }
        self.obligations += 1;
        let e = self.per_rule.entry(rule.to_string()).or_insert((0, 0));
        e.0 += 1;
        let inst = if case.is_empty() { format!("{}{}", run.name, run.case) } else { format!("{}{} {}", run.name, run.case, case) };
        match r {
            Ok(s) => {
                self.discharged += 1;
                e.1 += 1;
                if (e.1 <= 3 || e.1 % 997 == 0) && self.samples.len() < 60 { self.samples.push(cut(&format!("[{}] {}: {}", rule, inst, s), 700)); }
            }
            Err(m) => self.fail(rule, inst, m, run.construct.clone()),
        }
    }
    pub fn fail(&mut self, rule: &str, inst: String, what: String, construct: Vec<String>) {
        self.nviol += 1;
        if self.first_fail.is_none() {
            // enough is known: look a little further for other violations, then stop
            let now = Instant::now();
            self.first_fail = Some(now);
            self.end = self.end.min(now + Duration::from_secs(20));
        }
        if self.viol.iter().filter(|v| v.rule == rule).count() < 12 {
            self.viol.push(Viol { rule: rule.to_string(), inst, what: cut(&what, 1500), construct });
        }
    }
    pub fn has(&self, name: &str) -> bool { self.ents.contains_key(name) }
    /// analyse an entry; outcomes that do not return are undischarged obligations
    pub fn run(&mut self, name: &str, case: &str, args: Vec<Val>, facts: Facts) -> Run {
        self.run_raw(name, case, args, facts, false).0
    }
    pub fn run_join(&mut self, name: &str, case: &str, args: Vec<Val>, facts: Facts) -> Run {
        self.it.join = true;
        let r = self.run_raw(name, case, args, facts, false).0;
        self.it.join = false;
        r
    }
    /// second component: number of outcomes that did not return
    pub fn run_raw(&mut self, name: &str, case: &str, args: Vec<Val>, facts: Facts, quiet: bool) -> (Run, usize) {
        let case = if case.is_empty() { String::new() } else { format!(" [{}]", case) };
        let mut run = Run { name: name.to_string(), case, outs: vec![], construct: vec![] };
        let inst = match self.ents.get(name) {
            Some(i) => *i,
            None => { self.fail("machinery", name.into(), "entry point not found in the analysed program".into(), vec![]); return (run, 1); }
        };
        if self.past() { self.skipped += 1; return (run, 0); }
        self.runs += 1;
        reset_memo();
        clear_overflow();
        self.instances.insert(name.to_string());
        let t0 = std::time::Instant::now();
        self.it.deadline = if self.soft { self.end.min(t0 + Duration::from_secs(self.soft_s)) } else { self.end };
        let os = self.it.run(inst, args, facts);
        if self.it.timed_out { self.skipped += 1; }
        if std::env::var("STROKELINT_TRACE").is_ok() { eprintln!("trace {} {}: {} outcomes, {:?}", name, run.case, os.len(), t0.elapsed()); }
        run.construct = self.it.entered.iter().map(|f| format!("{}:{} {}", short(&f.file), f.line, f.name)).collect();
        let mut bad = 0;
        for o in os {
            match &o.res {
                Res::Ret(v) => { if !(o.facts.0.signs.len() > 1 && o.facts.infeasible()) { run.outs.push((o.facts.clone(), v.clone())); } }
                _ => {
                    if o.facts.infeasible() { continue; }
                    if let (Res::Budget, true) = (&o.res, self.it.timed_out) { bad += 1; self.unclear("time"); continue; }
                    if let (Res::Budget, true) = (&o.res, self.prefix) { continue; }
                    if let (Res::Budget | Res::Unsup(_), true) = (&o.res, self.soft) { bad += 1; self.unclear("analysable"); if std::env::var("STROKELINT_TRACE").is_ok() { eprintln!("trace unclear {} {}: {}", name, run.case, o.why()); } continue; }
                    bad += 1;
                    if !quiet || bad <= 3 {
                        let mut c = o.stack.iter().take(6).map(|s| short(s).to_string()).collect::<Vec<_>>();
                        if c.is_empty() { c = run.construct.clone(); }
                        let rule = match o.res { Res::Panic(_) => "returns normally", Res::Budget => "terminates", _ => "analysable" };
                        let inst = format!("{}{}", run.name, run.case);
                        let what = format!("{}; path condition: {}", o.why(), path(&o.facts));
                        self.obligations += 1;
                        self.per_rule.entry(rule.to_string()).or_insert((0, 0)).0 += 1;
                        self.fail(rule, inst, what, c);
                    }
                }
            }
        }
        (run, bad)
    }
    /// every outcome must be a panic
    pub fn must_panic(&mut self, rule: &str, name: &str, case: &str, args: Vec<Val>) {
        let mut run = Run { name: name.to_string(), case: format!(" [{}]", case), outs: vec![], construct: vec![] };
        let inst = match self.ents.get(name) {
            Some(i) => *i,
            None => { self.fail("machinery", name.into(), "entry point not found in the analysed program".into(), vec![]); return; }
        };
        if self.past() { self.skipped += 1; return; }
        self.runs += 1;
        reset_memo();
        clear_overflow();
        self.instances.insert(name.to_string());
        self.it.deadline = if self.soft { self.end.min(Instant::now() + Duration::from_secs(self.soft_s)) } else { self.end };
        let os = self.it.run(inst, args, Facts::new());
        if self.it.timed_out { self.skipped += 1; return; }
        run.construct = self.it.entered.iter().map(|f| format!("{}:{} {}", short(&f.file), f.line, f.name)).collect();
        let mut panics = 0;
        let mut r: Rs = Ok(String::new());
        for o in &os {
            if o.facts.infeasible() { continue; }
            match &o.res {
                Res::Panic(_) => panics += 1,
                Res::Ret(v) => r = Err(format!("returns {} instead of panicking; path condition: {}", match v { Val::F(t) => cut(&show(*t), 200), v => kind(v).to_string() }, path(&o.facts))),
                _ => { self.fail("analysable", format!("{}{}", run.name, run.case), o.why(), run.construct.clone()); return; }
            }
        }
        if r.is_ok() { r = if panics > 0 { Ok(format!("panics on all {} paths", panics)) } else { Err("no feasible path was found".into()) }; }
        self.ob(rule, &run, "", r);
    }
    /// every outcome: compare the listed numbers
    pub fn expect(&mut self, rule: &str, run: &Run, f: &dyn Fn(&Facts, &Val) -> Result<Vec<(String, Tm, Tm)>, String>) {
        for (i, (fa, v)) in run.outs.iter().enumerate() {
            if self.past() { self.skipped += 1; break; }
            let part = if run.outs.len() > 1 { format!("partition {}", i) } else { String::new() };
            match f(fa, v) {
                Err(m) => self.ob(rule, run, &part, Err(format!("{}; path condition: {}", m, path(fa)))),
                Ok(list) => for (what, got, want) in list {
                    // control: a wrong requirement must be refused (three times per rule)
                    if !fa.contradictory() && !is_nonfinite(want) && self.controls.get(rule).map_or(true, |n| *n < 3) {
                        *self.controls.entry(rule.to_string()).or_insert(0) += 1;
                        if same(fa, got, add(want, ci(1)), 8).is_ok() { self.fail("machinery", format!("{}{}", run.name, run.case), format!("the comparison also accepts the wrong requirement {} + 1", cut(&show(want), 200)), vec![]); }
                    }
                    let r = same(fa, got, want, 8);
                    let case = if part.is_empty() { what } else { format!("{} {}", what, part) };
                    self.ob(rule, run, &case, r);
                },
            }
        }
    }
}
pub fn cut(s: &str, n: usize) -> String { if s.chars().count() <= n { s.to_string() } else { format!("{}...", s.chars().take(n).collect::<String>()) } }
pub fn short(s: &str) -> &str { match s.rfind("/src/") { Some(i) if s.contains("registry") || s.contains("rustlib") => &s[i + 5..], _ => s.strip_prefix("/repo/").unwrap_or(s) } }
pub fn path(f: &Facts) -> String { if f.0.log.is_empty() { "always".into() } else { cut(&f.0.log.join(" and "), 900) } }

// ---- inputs
pub const AX: [&str; 140] = ["x", "y", "z", "w", "v", "u", "s", "r", "c8", "c9", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c19", "c20", "c21", "c22", "c23", "c24", "c25", "c26", "c27", "c28", "c29", "c30", "c31", "c32", "c33", "c34", "c35", "c36", "c37", "c38", "c39", "c40", "c41", "c42", "c43", "c44", "c45", "c46", "c47", "c48", "c49", "c50", "c51", "c52", "c53", "c54", "c55", "c56", "c57", "c58", "c59", "c60", "c61", "c62", "c63", "c64", "c65", "c66", "c67", "c68", "c69", "c70", "c71", "c72", "c73", "c74", "c75", "c76", "c77", "c78", "c79", "c80", "c81", "c82", "c83", "c84", "c85", "c86", "c87", "c88", "c89", "c90", "c91", "c92", "c93", "c94", "c95", "c96", "c97", "c98", "c99", "c100", "c101", "c102", "c103", "c104", "c105", "c106", "c107", "c108", "c109", "c110", "c111", "c112", "c113", "c114", "c115", "c116", "c117", "c118", "c119", "c120", "c121", "c122", "c123", "c124", "c125", "c126", "c127", "c128", "c129", "c130", "c131", "c132", "c133", "c134", "c135", "c136", "c137", "c138", "c139"];
pub fn cname(i: usize, k: usize) -> String { format!("P{}{}", i, AX[k]) }
pub fn pts(n: usize, d: usize) -> Vec<Vec<Tm>> { (0..n).map(|i| (0..d).map(|k| var(&cname(i, k))).collect()).collect() }
pub fn pt(name: &str, d: usize) -> Vec<Tm> { (0..d).map(|k| var(&format!("{}{}", name, AX[k]))).collect() }
pub fn fv(t: &[Tm]) -> Val { agg(0, t.iter().map(|x| Val::F(*x)).collect()) }
pub fn pv(p: &[Vec<Tm>]) -> Val { agg(0, p.iter().map(|x| fv(x)).collect()) }
pub fn iv(n: usize) -> Val { Val::I(n as i128) }
pub fn tv(t: Tm) -> Val { Val::F(t) }
pub fn col(p: &[Vec<Tm>], k: usize) -> Vec<Tm> { p.iter().map(|x| x[k]).collect() }

// ---- outputs
pub fn at<'a>(v: &'a Val, p: &[usize]) -> Result<&'a Val, String> {
    let mut v = v;
    for i in p {
        match v {
            Val::A(a) => match a.f.get(*i) { Some(x) => v = x, None => return Err(format!("result has no component {}", i)) },
            _ => return Err(format!("result component is {}", kind(v))),
        }
    }
    Ok(v)
}
pub fn num(v: &Val, p: &[usize]) -> Result<Tm, String> {
    as_f(at(v, p)?).map_err(|e| format!("{:?}", e))
}
pub fn int(v: &Val, p: &[usize]) -> Result<i128, String> {
    match at(v, p)? { Val::I(i) => Ok(*i), v => Err(format!("integer expected, found {}", kind(v))) }
}
pub fn boolean(v: &Val) -> Result<Cd, String> {
    match v { Val::C(c) => Ok(*c), Val::I(i) => Ok(cb(*i != 0)), v => Err(format!("truth value expected, found {}", kind(v))) }
}

// ---- expected values
pub fn powt(t: Tm, k: usize) -> Tm { let mut r = ci(1); for _ in 0..k { r = if as_f64(r) == Some(1.0) { t } else { mul(r, t) }; } r }
pub fn bweight(n: usize, i: usize, t: Tm) -> Tm { mul(mul(cr(binom(n, i)), powt(sub(ci(1), t), n - i)), powt(t, i)) }
pub fn bern(p: &[Tm], t: Tm) -> Tm {
    let n = p.len() - 1;
    sum((0..=n).map(|i| mul(bweight(n, i, t), p[i])))
}
pub fn sum(it: impl Iterator<Item = Tm>) -> Tm { let mut r: Option<Tm> = None; for x in it { r = Some(match r { None => x, Some(s) => add(s, x) }); } r.unwrap_or(ci(0)) }
/// control values of the derivative of the Bernstein form
pub fn hodo(p: &[Tm]) -> Vec<Tm> { let n = p.len() - 1; (0..n).map(|i| mul(ci(n as i128), sub(p[i + 1], p[i]))).collect() }
pub fn sqrt(t: Tm) -> Tm { fun("sqrt", vec![t]) }
pub fn dist2(a: &[Tm], b: &[Tm]) -> Tm { sum((0..a.len()).map(|k| { let d = sub(a[k], b[k]); mul(d, d) })) }

// ---- comparison
fn summands(t: Tm, out: &mut Vec<Tm>) {
    match &*get(t) {
        T::Add(a, b) => { summands(*a, out); summands(*b, out); }
        T::Const(..) if as_f64(t) == Some(0.0) => {}
        _ => out.push(t),
    }
}
fn nf_eq(f: &Facts, a: Tm, b: Tm, sign: bool) -> bool {
    if a == b { return true; }
    if fingers() { if let Some(x) = modular_eq(f, a, b) { return x || (sign && modular_eq(f, a, neg(b)) == Some(true)); } }
    let r = match (f.nf(a), f.nf(b)) { (Some(x), Some(y)) => x.eq(&y) || (sign && !overflowed() && x.add(&y).is_zero()), _ => false };
    let o = overflowed();
    clear_overflow();
    r && !o
}
/// sums of square roots of sums of squares, compared part by part
fn parts_same(f: &Facts, a: Tm, b: Tm, depth: u32) -> bool {
    if a == b { return true; }
    if depth == 0 { return false; }
    let (mut x, mut y) = (vec![], vec![]);
    summands(a, &mut x);
    summands(b, &mut y);
    if x.len() > 1 || y.len() > 1 {
        if x.len() != y.len() { return false; }
        let mut used = vec![false; y.len()];
        return x.iter().enumerate().all(|(i, p)| {
            let mut order: Vec<usize> = vec![i];
            if y.len() <= 8 { order.extend((0..y.len()).filter(|j| *j != i)); }
            for j in order { if !used[j] && parts_same(f, *p, y[j], depth - 1) { used[j] = true; return true; } }
            false
        });
    }
    if x.len() != 1 || y.len() != 1 { return x.len() == y.len(); }
    let square = |t: Tm| match &*get(t) { T::Mul(p, q) if p == q => Some(*p), T::Fun("powi", v) if as_f64(v[1]) == Some(2.0) => Some(v[0]), _ => None };
    match (&*get(x[0]), &*get(y[0])) {
        (T::Fun("sqrt", p), T::Fun("sqrt", q)) => return parts_same(f, p[0], q[0], depth - 1),
        _ => {}
    }
    if let (Some(p), Some(q)) = (square(x[0]), square(y[0])) { return nf_eq(f, p, q, true); }
    false
}
pub fn same(f: &Facts, a: Tm, b: Tm, depth: u32) -> Rs {
    if f.contradictory() { return Ok("infeasible".into()); }
    if a == b { return Ok(format!("identical: {}", cut(&show(a), 200))); }
    if matches!(&*get(b), T::Add(..) | T::Fun("sqrt", _)) && parts_same(f, a, b, 6) { return Ok(format!("same chords: {}", cut(&show(b), 300))); }
    if is_nonfinite(a) || is_nonfinite(b) { return Err(format!("derived {} but required {}", show(a), show(b))); }
    let mut long = vec![];
    summands(b, &mut long);
    if long.len() > 3000 {
        // too long for normal forms: do the two formulas have clearly different values somewhere?
        let (x, y) = (number(a, &mut HashMap::new()), number(b, &mut HashMap::new()));
        return Err(match (x, y) {
            (Some(x), Some(y)) if f.0.raw.is_empty() && f.0.signs.is_empty() && (x - y).abs() > 1e-7 * (x.abs() + y.abs()) => format!("derived a sum that is not the required sum of {} terms (for instance {} instead of {})", long.len(), x, y),
            _ => "cannot relate the two sums".into(),
        });
    }
    if fingers() { if let Some(x) = modular_eq(f, a, b) { return modular(f, a, b, x); } }
    if let (Some(x), Some(y)) = (f.nf(a), f.nf(b)) {
        clear_overflow();
        let e = x.eq(&y);
        if !overflowed() && e { return Ok(format!("= {}", cut(&show_rf(&y), 300))); }
        clear_overflow();
    }
    let mut memo = HashMap::new();
    let (a2, b2) = (resolve(a, f, &mut memo), resolve(b, f, &mut memo));
    if (a2, b2) != (a, b) && depth > 0 && (!piecewise(a2) && !piecewise(b2)) { return same(f, a2, b2, 0); }
    if depth > 0 {
        if let Some(c) = split_cond(a2, f).or_else(|| split_cond(b2, f)) {
            let mut out = String::new();
            for v in [true, false] {
                let g = f.assume(c, v);
                if g.contradictory() { continue; }
                out = same(&g, a2, b2, depth - 1)?;
            }
            return Ok(format!("by cases on {}: {}", cut(&showc(c), 120), out));
        }
    }
    match (f.nf(a2), f.nf(b2)) {
        (Some(x), Some(y)) => {
            let e = x.eq(&y);
            if e && !overflowed() { return Ok("equal".into()); }
            let o = overflowed();
            clear_overflow();
            if o && modular_eq(f, a2, b2) == Some(true) { return modular(f, a2, b2, true); }
            if o { return Err(format!("arithmetic range of the analysis exceeded: derived {} required {}", cut(&show(a2), 200), cut(&show(b2), 200))); }
            Err(format!("derived {} but required {}; path condition: {}", cut(&show_rf(&x), 420), cut(&show_rf(&y), 420), path(f)))
        }
        _ => if modular_eq(f, a2, b2) == Some(true) { modular(f, a2, b2, true) } else { Err(format!("value without a normal form: derived {} required {}; path condition: {}", cut(&show(a2), 300), cut(&show(b2), 300), path(f))) },
    }
}
/// value of a formula when every input is some number between 1 and 2
fn number(t: Tm, memo: &mut HashMap<Tm, Option<f64>>) -> Option<f64> {
    if let Some(r) = memo.get(&t) { return *r; }
    let r = (|| Some(match &*get(t) {
        T::Const(b, _) => f64::from_bits(*b),
        T::Var(v) => 1.0 + (*v as f64 * 0.618_033_988_75).fract(),
        T::Add(a, b) => number(*a, memo)? + number(*b, memo)?,
        T::Sub(a, b) => number(*a, memo)? - number(*b, memo)?,
        T::Mul(a, b) => number(*a, memo)? * number(*b, memo)?,
        T::Div(a, b) => number(*a, memo)? / number(*b, memo)?,
        T::Neg(a) => -number(*a, memo)?,
        T::Fun("sqrt", v) => number(v[0], memo)?.sqrt(),
        T::Fun("abs", v) => number(v[0], memo)?.abs(),
        T::Fun("powi", v) => number(v[0], memo)?.powf(as_f64(v[1])?),
        _ => return None,
    }))().filter(|x: &f64| x.is_finite());
    memo.insert(t, r);
    r
}
fn modular(f: &Facts, a: Tm, b: Tm, eq: bool) -> Rs {
    if eq { return Ok("the formulas have the same residues modulo 2^61 - 1".into()); }
    Err(format!("the formulas differ (different residues modulo 2^61 - 1): derived {} but required {}; path condition: {}", cut(&show_d(a, 12), 300), cut(&show_d(b, 12), 300), path(f)))
}
/// formulas too large for exact normal forms: identity of rational functions
/// decided by their values at two points of the field of 2^61 - 1 elements
/// (None: not a rational function, or the path condition contains equations).
/// Equality also settles comparisons whose exact form is out of range; a
/// difference is a finding only where a rule asks for this mode.
fn modular_eq(f: &Facts, a: Tm, b: Tm) -> Option<bool> {
    if f.env() != 0 || f.0.signs.iter().any(|x| x.2 == ZERO) || f.0.raw.iter().any(|x| x.2 == ZERO) { return None; }
    for seed in [1, 2] { if residue(a, seed)? != residue(b, seed)? { return Some(false); } }
    Some(true)
}
/// both conditions have the same truth value under f
pub fn cond_equiv(f: &Facts, a: Cd, b: Cd, depth: u32) -> Rs {
    if f.contradictory() { return Ok("infeasible".into()); }
    match (f.decide(a), f.decide(b)) {
        (Some(x), Some(y)) => return if x == y { Ok(format!("{} when {}", x, path(f))) } else { Err(format!("derived {} but required {} when {}", x, y, path(f))) },
        _ => {}
    }
    if depth == 0 { return Err(format!("cannot relate {} to {} when {}", cut(&showc(a), 300), cut(&showc(b), 300), path(f))); }
    let mut memo = HashMap::new();
    let (a2, b2) = (resolve_cond(a, f, &mut memo), resolve_cond(b, f, &mut memo));
    match (f.decide(a2), f.decide(b2)) {
        (Some(x), Some(y)) => return if x == y { Ok(format!("{} when {}", x, path(f))) } else { Err(format!("derived {} but required {} when {}", x, y, path(f))) },
        _ => {}
    }
    let pick = |c: Cd| -> Option<Cd> { let l = f.undecided_leaf(c)?; Some(split_in_cond(l, f).unwrap_or(l)) };
    let c = match pick(b2).or_else(|| pick(a2)) { Some(c) => c, None => return Err(format!("cannot relate {} to {} when {}", cut(&showc(a), 300), cut(&showc(b), 300), path(f))) };
    let mut out = String::new();
    for v in [true, false] {
        let g = f.assume(c, v);
        if g.contradictory() { continue; }
        out = cond_equiv(&g, a2, b2, depth - 1)?;
    }
    Ok(out)
}
/// coefficients of a value that must be a linear form in the given atoms
pub fn linear_in(r: &RatFn, at: &[Atom]) -> Result<Vec<RatFn>, String> {
    for f in r.den.keys() { if at.iter().any(|a| f.has(*a)) { return Err(format!("divides by a control point: {}", show_rf(r))); } }
    let mut rest = r.num.clone();
    let mut out = vec![];
    for a in at {
        if rest.degree_in(*a) > 1 { return Err(format!("not linear in {}", atom_name(*a))); }
        let cs = rest.coeffs_in(*a);
        let c1 = cs.get(1).cloned().unwrap_or_else(Poly::zero);
        if at.iter().any(|b| c1.has(*b)) { return Err(format!("not linear in {}", atom_name(*a))); }
        out.push(RatFn { num: c1, den: r.den.clone() }.cancel());
        rest = cs[0].clone();
    }
    if !rest.is_zero() { return Err(format!("has a part that does not depend on the control points: {}", cut(&show_poly(&rest, &atom_name), 200))); }
    Ok(out)
}
/// every atom a value depends on, looking through function arguments
pub fn support(r: &RatFn, out: &mut BTreeSet<String>) {
    for a in r.atoms() {
        match atom_def(a) {
            AtomDef::Var(v) => { out.insert(var_name(v)); }
            AtomDef::Fun(_, args) => for x in &args { support(x, out) },
            AtomDef::Opaque(t) => tm_support(t, out, &mut Default::default()),
        }
    }
}
pub fn tm_support(t: Tm, out: &mut BTreeSet<String>, seen: &mut BTreeSet<Tm>) {
    if !seen.insert(t) { return; }
    match &*get(t) {
        T::Const(..) => {}
        T::Var(v) => { out.insert(var_name(*v)); }
        T::Add(a, b) | T::Sub(a, b) | T::Mul(a, b) | T::Div(a, b) | T::Rem(a, b) => { tm_support(*a, out, seen); tm_support(*b, out, seen); }
        T::Neg(a) => tm_support(*a, out, seen),
        T::Fun(_, v) => for x in v { tm_support(*x, out, seen) },
        T::Phi(c, a, b) => { cd_support(*c, out, seen); tm_support(*a, out, seen); tm_support(*b, out, seen); }
    }
}
fn cd_support(c: Cd, out: &mut BTreeSet<String>, seen: &mut BTreeSet<Tm>) {
    match &*getc(c) {
        C::B(_) => {}
        C::Lt(a, b) | C::Le(a, b) | C::Eq(a, b) => { tm_support(*a, out, seen); tm_support(*b, out, seen); }
        C::Not(a) => cd_support(*a, out, seen),
        C::And(a, b) | C::Or(a, b) => { cd_support(*a, out, seen); cd_support(*b, out, seen); }
        C::Phi(a, b, c) => { cd_support(*a, out, seen); cd_support(*b, out, seen); cd_support(*c, out, seen); }
    }
}

// ---- bit-level equality
/// rewriting by identities that hold for every IEEE-754 value bit for bit
pub fn ieee(t: Tm, memo: &mut HashMap<Tm, Tm>) -> Tm {
    if let Some(x) = memo.get(&t) { return *x; }
    let one = |x: Tm| as_f64(x) == Some(1.0);
    let mone = |x: Tm| as_f64(x) == Some(-1.0);
    let r = match &*get(t) {
        T::Const(..) | T::Var(_) => t,
        T::Add(a, b) => iadd(ieee(*a, memo), ieee(*b, memo)),
        T::Sub(a, b) => {
            let (x, y) = (ieee(*a, memo), ieee(*b, memo));
            if as_f64(y).map_or(false, |v| v == 0.0 && v.is_sign_positive()) { x } else { iadd(x, ineg(y)) }
        }
        T::Neg(a) => ineg(ieee(*a, memo)),
        T::Mul(a, b) => {
            let (x, y) = (ieee(*a, memo), ieee(*b, memo));
            if one(x) { y } else if one(y) { x } else if mone(x) { ineg(y) } else if mone(y) { ineg(x) } else { imul(x, y) }
        }
        T::Div(a, b) => {
            let (x, y) = (ieee(*a, memo), ieee(*b, memo));
            if one(y) { x } else if mone(y) { ineg(x) } else if let T::Neg(x2) = &*get(x) { ineg(div(*x2, y)) } else if let T::Neg(y2) = &*get(y) { ineg(div(x, *y2)) } else { div(x, y) }
        }
        T::Rem(a, b) => rem(ieee(*a, memo), ieee(*b, memo)),
        T::Fun("powi", v) if as_f64(v[1]) == Some(1.0) => ieee(v[0], memo),
        T::Fun("powi", v) if as_f64(v[1]) == Some(2.0) => { let x = ieee(v[0], memo); imul(x, x) }
        T::Fun(f, v) => { let v: Vec<Tm> = v.iter().map(|x| ieee(*x, memo)).collect(); fun(f, v) }
        T::Phi(c, a, b) => phi(*c, ieee(*a, memo), ieee(*b, memo)),
    };
    memo.insert(t, r);
    r
}
fn ineg(t: Tm) -> Tm { if let T::Neg(x) = &*get(t) { *x } else { neg(t) } }
fn imul(a: Tm, b: Tm) -> Tm {
    if let T::Neg(x) = &*get(a) { return ineg(imul(*x, b)); }
    if let T::Neg(x) = &*get(b) { return ineg(imul(a, *x)); }
    if a.0 <= b.0 { mul(a, b) } else { mul(b, a) }
}
fn iadd(a: Tm, b: Tm) -> Tm {
    if a.0 <= b.0 { add(a, b) } else { add(b, a) }
}
pub fn bits_same(f: &Facts, a: Tm, b: Tm) -> Rs {
    if f.contradictory() { return Ok("infeasible".into()); }
    let mut m = HashMap::new();
    let (x, y) = (ieee(a, &mut m), ieee(b, &mut m));
    if x == y { return Ok(format!("one value: {}", cut(&show(x), 160))); }
    let mut m2 = HashMap::new();
    let (x2, y2) = (resolve(x, f, &mut m2), resolve(y, f, &mut m2));
    let (x2, y2) = (ieee(x2, &mut m), ieee(y2, &mut m));
    if x2 == y2 { return Ok("one value on this path".into()); }
    Err(format!("computed differently: {} versus {}; path condition: {}", cut(&show_d(x2, 12), 300), cut(&show_d(y2, 12), 300), path(f)))
}
/// rewriting by identities that hold for finite operands (equality of values, not of the sign of zero)
pub fn exact(t: Tm, memo: &mut HashMap<Tm, Tm>) -> Tm {
    if let Some(x) = memo.get(&t) { return *x; }
    let is = |x: Tm, v: f64| as_f64(x) == Some(v);
    let r = match &*get(t) {
        T::Const(..) | T::Var(_) => t,
        T::Add(a, b) => {
            let (x, y) = (exact(*a, memo), exact(*b, memo));
            if is(x, 0.0) { y } else if is(y, 0.0) { x } else if x.0 <= y.0 { add(x, y) } else { add(y, x) }
        }
        T::Sub(a, b) => {
            let (x, y) = (exact(*a, memo), exact(*b, memo));
            if x == y { ci(0) } else if is(y, 0.0) { x } else if is(x, 0.0) { ineg(y) } else { sub(x, y) }
        }
        T::Neg(a) => { let x = exact(*a, memo); if is(x, 0.0) { ci(0) } else { ineg(x) } }
        T::Mul(a, b) => {
            let (x, y) = (exact(*a, memo), exact(*b, memo));
            if is(x, 0.0) || is(y, 0.0) { ci(0) } else if is(x, 1.0) { y } else if is(y, 1.0) { x } else if x.0 <= y.0 { mul(x, y) } else { mul(y, x) }
        }
        T::Div(a, b) => {
            let (x, y) = (exact(*a, memo), exact(*b, memo));
            if is(x, 0.0) { ci(0) } else if is(y, 1.0) { x } else if x == y { ci(1) } else { div(x, y) }
        }
        T::Rem(a, b) => rem(exact(*a, memo), exact(*b, memo)),
        T::Fun("powi", v) => {
            let x = exact(v[0], memo);
            if is(v[1], 0.0) { ci(1) } else if is(v[1], 1.0) || is(x, 0.0) || is(x, 1.0) { x } else { fun("powi", vec![x, v[1]]) }
        }
        T::Fun(f, v) => { let v: Vec<Tm> = v.iter().map(|x| exact(*x, memo)).collect(); fun(f, v) }
        T::Phi(c, a, b) => phi(*c, exact(*a, memo), exact(*b, memo)),
    };
    memo.insert(t, r);
    r
}
