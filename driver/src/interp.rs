//! Abstract interpretation of monomorphic MIR.  Control data (integers,
//! pointers, enum tags) are constants of the instantiation; floating-point
//! data are value numbers (terms over the entry's inputs).  Undecided
//! branches either partition the trace (Fork) or are joined at the immediate
//! post-dominator into gated phi values (Join).
use crate::ir::*;
use crate::term::*;
use crate::value::*;
use rustc_public::crate_def::CrateDef;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::{BinOp, CastKind, PointerCoercion, UnOp};
use rustc_public::ty::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

#[derive(Debug, Clone)]
pub enum E { Decide(Cd), Unsup(String), Panic(String) }
pub type R<T> = Result<T, E>;
fn uns<T>(s: impl Into<String>) -> R<T> { Err(E::Unsup(s.into())) }

#[derive(Clone, PartialEq, Debug)]
pub enum Loc { At(Base, Vec<Step>), Zst }

#[derive(Clone)]
pub struct Frame { pub f: Rc<Fun>, pub bb: usize, pub si: usize, pub base: usize, pub dest: Loc, pub target: Option<usize> }
#[derive(Clone)]
pub struct State { pub frames: Vec<Frame>, pub mem: Vec<Val>, pub facts: Facts, pub assumed: HashMap<Cd, bool> }
#[derive(Clone, Debug)]
pub enum Res { Ret(Val), Panic(String), Unsup(String), Budget }
#[derive(Clone, Debug)]
pub struct Outcome { pub facts: Facts, pub res: Res, pub stack: Vec<String> }
impl Outcome {
    pub fn why(&self) -> String {
        match &self.res {
            Res::Ret(_) => "returns".into(),
            Res::Panic(m) => format!("panics: {}", m),
            Res::Unsup(m) => format!("outside the analysed language: {}", m),
            Res::Budget => "no termination proof within the unrolling bound".into(),
        }
    }
    pub fn place(&self) -> String { self.stack.first().cloned().unwrap_or_default() }
}

enum Flow { Next, Done(Val) }
enum Seg { Reached(State), Out(Outcome) }

pub struct Interp {
    pub cx: Cx,
    pub join: bool,
    pub max_steps: u64,
    pub max_parts: usize,
    pub deadline: std::time::Instant,
    pub timed_out: bool,
    steps: u64,
    parts: usize,
    depth: usize,
    pub cov: HashMap<Instance, (Rc<Fun>, HashSet<usize>)>,
    pub called: BTreeMap<String, u64>,
    pub total_steps: u64,
    pub total_parts: u64,
    /// library functions entered by the current run, in order of first entry
    pub entered: Vec<Rc<Fun>>,
    fresh: u32,
}

pub fn push(p: &mut Vec<Step>, s: Step) {
    match (s, p.last().copied()) {
        (_, Some(Step::Z)) => {}
        (_, Some(Step::U(_))) => { p.pop(); push(p, s); }
        (Step::I(k), Some(Step::V(a, _))) => { p.pop(); push(p, Step::I(a + k)); }
        (Step::I(0), Some(Step::O)) => { p.pop(); }
        (Step::V(b, n), Some(Step::V(a, _))) => { p.pop(); p.push(Step::V(a + b, n)); }
        _ => p.push(s),
    }
}
fn load(v: &Val, p: &[Step]) -> R<Val> {
    if p.is_empty() { return Ok(v.clone()); }
    if let Val::Phi(c, a, b) = v { return Ok(join(*c, &load(a, p)?, &load(b, p)?)); }
    match p[0] {
        Step::Z => Ok(Val::Unit),
        Step::F(i) => match v {
            Val::A(a) => match a.f.get(i as usize) { Some(x) => load(x, &p[1..]), None => Ok(Val::Uninit) },
            Val::Unit => Ok(Val::Unit),
            Val::Uninit => Ok(Val::Uninit),
            Val::Opaque => Ok(Val::Opaque),
            _ => uns(format!("field of {:?}", v)),
        },
        Step::I(k) => match v {
            Val::A(a) => if k >= 0 && (k as usize) < a.f.len() { load(&a.f[k as usize], &p[1..]) } else { uns(format!("element {} outside an array of {}", k, a.f.len())) },
            Val::Uninit => Ok(Val::Uninit),
            Val::Unit => Ok(Val::Unit),
            Val::Opaque => Ok(Val::Opaque),
            _ => uns(format!("element of {:?}", v)),
        },
        Step::V(s, n) => match v {
            Val::A(a) => {
                if s < 0 || s as usize + n as usize > a.f.len() { return uns("view outside an array"); }
                load(&agg(0, a.f[s as usize..s as usize + n as usize].to_vec()), &p[1..])
            }
            Val::Uninit => Ok(Val::Uninit),
            Val::Unit => Ok(Val::Unit),
            Val::Opaque => Ok(Val::Opaque),
            _ => uns("view of a non-array"),
        },
        Step::O => load(&agg(0, vec![v.clone()]), &p[1..]),
        Step::U(_) => load(v, &p[1..]),
    }
}
fn store(v: &mut Val, p: &[Step], x: Val) -> R<()> {
    if p.is_empty() { *v = x; return Ok(()); }
    if let Val::Phi(c, a, b) = v {
        let mut a2 = (**a).clone();
        let mut b2 = (**b).clone();
        store(&mut a2, p, x.clone())?;
        store(&mut b2, p, x)?;
        *v = join(*c, &a2, &b2);
        return Ok(());
    }
    match p[0] {
        Step::Z => Ok(()),
        Step::F(i) => {
            if let Val::Uninit = v { *v = agg(0, vec![]); }
            match v {
                Val::A(a) => {
                    let a = Rc::make_mut(a);
                    while a.f.len() <= i as usize { a.f.push(Val::Uninit); }
                    store(&mut a.f[i as usize], &p[1..], x)
                }
                Val::Unit => Ok(()),
                _ => uns("store to a field of a scalar"),
            }
        }
        Step::I(k) => {
            if k < 0 { return uns("store before an array"); }
            if let Val::Uninit = v { *v = agg(0, vec![]); }
            match v {
                Val::A(a) => {
                    let a = Rc::make_mut(a);
                    if k > 4096 { return uns("store far outside an array"); }
                    while a.f.len() <= k as usize { a.f.push(Val::Uninit); }
                    store(&mut a.f[k as usize], &p[1..], x)
                }
                Val::Unit => Ok(()),
                _ => uns("store to an element of a scalar"),
            }
        }
        Step::V(s, n) => {
            if p.len() > 1 { return uns("store through a view"); }
            let xs: Vec<Val> = match &x { Val::A(a) => a.f.clone(), Val::Unit | Val::Uninit => vec![x.clone(); n as usize], _ => return uns("view store") };
            for (j, y) in xs.into_iter().enumerate().take(n as usize) { store(v, &[Step::I(s + j as i64)], y)?; }
            Ok(())
        }
        Step::U(_) => store(v, &p[1..], x),
        Step::O => {
            if p.len() > 1 { return match p[1] { Step::V(0, 1) => store(v, &p[..1].to_vec(), x), _ => uns("store beyond an object") }; }
            match &x { Val::A(a) if a.f.len() == 1 => { *v = a.f[0].clone(); Ok(()) } _ => uns("object store") }
        }
    }
}
pub fn as_f(v: &Val) -> R<Tm> {
    match v { Val::F(t) => Ok(*t), Val::Phi(c, a, b) => Ok(phi(*c, as_f(a)?, as_f(b)?)), _ => uns(format!("number expected, found {:?}", kind(v))) }
}
pub fn kind(v: &Val) -> &'static str {
    match v { Val::Uninit => "uninitialised data", Val::Unit => "nothing", Val::Opaque => "opaque data", Val::I(_) => "an integer", Val::C(_) => "a truth value", Val::F(_) => "a number", Val::P(_) => "a pointer", Val::A(_) => "an aggregate", Val::Fn(_) => "a function", Val::Phi(..) => "a joined value" }
}
fn as_i(v: &Val) -> R<i128> {
    match v { Val::I(i) => Ok(*i), Val::Phi(c, _, _) => Err(E::Decide(*c)), Val::C(c) => match cond_const(*c) { Some(b) => Ok(b as i128), None => Err(E::Decide(*c)) }, _ => uns(format!("integer expected, found {}", kind(v))) }
}
fn as_c(v: &Val) -> R<Cd> {
    match v { Val::C(c) => Ok(*c), Val::I(i) => Ok(cb(*i != 0)), Val::Phi(c, a, b) => Ok(cphi(*c, as_c(a)?, as_c(b)?)), _ => uns(format!("truth value expected, found {}", kind(v))) }
}
fn as_p(v: &Val) -> R<Ptr> {
    match v { Val::P(p) => Ok(p.clone()), Val::Phi(c, _, _) => Err(E::Decide(*c)), _ => uns(format!("pointer expected, found {}", kind(v))) }
}
fn lift1(v: &Val, f: &mut dyn FnMut(&Val) -> R<Val>) -> R<Val> {
    match v { Val::Phi(c, a, b) => Ok(join(*c, &lift1(a, f)?, &lift1(b, f)?)), _ => f(v) }
}
fn lift2(v: &Val, w: &Val, f: &mut dyn FnMut(&Val, &Val) -> R<Val>) -> R<Val> {
    match (v, w) {
        (Val::Phi(c, a, b), Val::Phi(d, x, y)) if c == d => Ok(join(*c, &lift2(a, x, f)?, &lift2(b, y, f)?)),
        (Val::Phi(c, a, b), _) => Ok(join(*c, &lift2(a, w, f)?, &lift2(b, w, f)?)),
        (_, Val::Phi(c, a, b)) => Ok(join(*c, &lift2(v, a, f)?, &lift2(v, b, f)?)),
        _ => f(v, w),
    }
}
fn ptr_add(p: &Ptr, d: i64) -> Val {
    if d == 0 { return Val::P(p.clone()); }
    let mut q = (*p.path).clone();
    match q.last().copied() {
        Some(Step::I(k)) => {
            q.pop();
            if q.last() == Some(&Step::O) { if k + d == 0 { q.pop(); return ptr(p.base, q); } q.push(Step::I(k + d)); }
            else { q.push(Step::I(k + d)); }
        }
        Some(Step::Z) => {}
        _ => { q.push(Step::O); q.push(Step::I(d)); }
    }
    ptr(p.base, q)
}
fn split_idx(p: &Ptr) -> (Base, Vec<Step>, i64) {
    let mut q = (*p.path).clone();
    if let Some(Step::I(k)) = q.last().copied() {
        q.pop();
        if q.last() == Some(&Step::O) { q.pop(); }
        return (p.base, q, k);
    }
    (p.base, q, 0)
}
fn ptr_diff(a: &Ptr, b: &Ptr) -> R<i64> {
    if a == b { return Ok(0); }
    let (x, y) = (split_idx(a), split_idx(b));
    if x.0 == y.0 && x.1 == y.1 { return Ok(x.2 - y.2); }
    // one of them an object, the other its end
    uns("difference of unrelated pointers")
}
/// last path segment of a function's name, generics removed
pub fn base_name(n: &str) -> String {
    let mut depth = 0i32;
    let mut out = String::new();
    let b: Vec<char> = n.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        match c {
            '<' => depth += 1,
            '>' if i > 0 && b[i - 1] == '-' => {}
            '>' => depth -= 1,
            ':' if depth == 0 => { if i + 1 < b.len() && b[i + 1] == ':' { let rest: String = b[i + 2..].iter().collect(); if !rest.starts_with('<') { out.clear(); } i += 1; } }
            _ if depth == 0 => out.push(c),
            _ => {}
        }
        i += 1;
    }
    out
}

/// the sign bit: at zero it is not determined by the value
fn negative(x: Tm) -> Cd {
    match as_f64(x) {
        Some(v) => cb(v.is_sign_negative()),
        None => or(lt(x, cf(0.0)), and(eq(x, cf(0.0)), lt(fun("signbit", vec![x]), cf(0.0)))),
    }
}
impl Interp {
    pub fn new() -> Interp {
        Interp { cx: Cx::new(), join: false, max_steps: 30_000_000, max_parts: 20_000, deadline: std::time::Instant::now() + std::time::Duration::from_secs(3600), timed_out: false, steps: 0, parts: 0, depth: 0, cov: HashMap::new(), called: BTreeMap::new(), total_steps: 0, total_parts: 0, entered: vec![], fresh: 0 }
    }
    // ---- entry
    pub fn run(&mut self, inst: Instance, args: Vec<Val>, facts: Facts) -> Vec<Outcome> {
        self.steps = 0;
        self.parts = 0;
        self.depth = 0;
        self.entered.clear();
        self.timed_out = false;
        let r = self.run_in(vec![], inst, args, facts);
        self.total_steps += self.steps;
        self.total_parts += r.len() as u64;
        r
    }
    fn run_in(&mut self, mem: Vec<Val>, inst: Instance, args: Vec<Val>, facts: Facts) -> Vec<Outcome> {
        let mut st = State { frames: vec![], mem, facts: facts.clone(), assumed: HashMap::new() };
        if let Err(e) = self.enter(&mut st, inst, args, Loc::Zst, None) {
            return vec![Outcome { facts, res: Res::Unsup(format!("{:?}", e)), stack: vec![] }];
        }
        self.segment(st, None).into_iter().map(|s| match s { Seg::Out(o) => o, Seg::Reached(_) => unreachable!() }).collect()
    }
    fn stack(&self, st: &State) -> Vec<String> {
        let mut v = vec![];
        for f in st.frames.iter().rev() {
            let b = &f.f.blocks[f.bb];
            let sp = &b.spans[f.si.min(b.spans.len() - 1)];
            let l = sp.get_lines();
            v.push(format!("{}:{} in {}", sp.get_filename(), l.start_line, f.f.name));
        }
        // innermost frame of the library first
        if let Some(i) = st.frames.iter().rev().position(|f| f.f.in_stroke) { let x = v.remove(i); v.insert(0, x); }
        v
    }
    pub fn dec(&self, st: &State, c: Cd) -> R<bool> {
        if let Some(b) = cond_const(c) { return Ok(b); }
        if let Some(b) = self.known(st, c) { return Ok(b); }
        if !self.join { if let Some(b) = st.facts.decide(c) { return Ok(b); } }
        Err(E::Decide(c))
    }
    fn known(&self, st: &State, c: Cd) -> Option<bool> {
        if let Some(b) = cond_const(c) { return Some(b); }
        if let Some(b) = st.assumed.get(&c) { return Some(*b); }
        match &*getc(c) {
            C::Not(a) => self.known(st, *a).map(|b| !b),
            C::And(a, b) => match (self.known(st, *a), self.known(st, *b)) { (Some(false), _) | (_, Some(false)) => Some(false), (Some(true), Some(true)) => Some(true), _ => None },
            C::Or(a, b) => match (self.known(st, *a), self.known(st, *b)) { (Some(true), _) | (_, Some(true)) => Some(true), (Some(false), Some(false)) => Some(false), _ => None },
            C::Phi(c, a, b) => match self.known(st, *c) { Some(true) => self.known(st, *a), Some(false) => self.known(st, *b), None => None },
            _ => same_for_all(c),
        }
    }
    fn leaf(&self, st: &State, c: Cd) -> Cd {
        match &*getc(c) {
            C::Not(a) => self.leaf(st, *a),
            C::And(a, b) | C::Or(a, b) => {
                for x in [*a, *b] { if self.known(st, x).is_none() && (self.join || st.facts.decide(x).is_none()) { return self.leaf(st, x); } }
                c
            }
            C::Phi(p, a, b) => {
                for x in [*p, *a, *b] { if self.known(st, x).is_none() && (self.join || st.facts.decide(x).is_none()) { return self.leaf(st, x); } }
                c
            }
            _ => c,
        }
    }
    fn fork(&mut self, st: State, c: Cd) -> Vec<State> {
        let l = self.leaf(&st, c);
        let mut out = vec![];
        for v in [true, false] {
            let f = st.facts.assume(l, v);
            if f.contradictory() { continue; }
            let mut s = st.clone();
            s.facts = f;
            s.assumed.insert(l, v);
            out.push(s);
        }
        self.parts += out.len().saturating_sub(1);
        out
    }
    /// run a state until every trace has returned, failed or reached `stop`
    fn segment(&mut self, st: State, stop: Option<(usize, usize)>) -> Vec<Seg> {
        let mut work = vec![st];
        let mut out = vec![];
        'w: while let Some(mut st) = work.pop() {
            loop {
                if let Some((d, bb)) = stop {
                    let f = st.frames.last().unwrap();
                    if st.frames.len() == d && f.bb == bb && f.si == 0 { out.push(Seg::Reached(st)); continue 'w; }
                }
                self.steps += 1;
                if self.steps % 512 == 0 && std::time::Instant::now() >= self.deadline { self.timed_out = true; }
                if self.steps > self.max_steps || self.parts > self.max_parts || self.timed_out {
                    let stack = self.stack(&st);
                    out.push(Seg::Out(Outcome { facts: st.facts, res: Res::Budget, stack }));
                    if self.steps > self.max_steps || self.timed_out { return out; }
                    continue 'w;
                }
                if self.join {
                    if let Some(j) = self.try_join(&mut st) {
                        match j { Some(s) => { st = s; continue; } None => {} }
                    }
                }
                match self.step(&mut st) {
                    Ok(Flow::Next) => {}
                    Ok(Flow::Done(v)) => { out.push(Seg::Out(Outcome { facts: st.facts, res: Res::Ret(v), stack: vec![] })); continue 'w; }
                    Err(E::Decide(c)) => {
                        let mut n = self.fork(st, c);
                        n.reverse();
                        work.extend(n);
                        continue 'w;
                    }
                    Err(e) => {
                        let stack = self.stack(&st);
                        let dead = st.frames.iter().any(|f| !f.f.can_return[f.bb]);
                        let res = match e {
                            E::Panic(m) => Res::Panic(m),
                            E::Unsup(m) => if dead { Res::Panic(format!("in code that cannot return ({})", m)) } else { Res::Unsup(m) },
                            E::Decide(_) => unreachable!(),
                        };
                        out.push(Seg::Out(Outcome { facts: st.facts, res, stack }));
                        continue 'w;
                    }
                }
            }
        }
        out
    }
    /// at an undecided two-way branch: analyse both sides up to the immediate
    /// post-dominator and join. Some(None): not applicable here.
    fn try_join(&mut self, st: &mut State) -> Option<Option<State>> {
        let fr = st.frames.last().unwrap();
        let blk = &fr.f.blocks[fr.bb];
        if fr.si < blk.st.len() { return None; }
        let (op, br, other) = match &blk.te { Te::Switch(o, b, t) => (o, b, *t), _ => return None };
        let v = match self.operand(st, op) { Ok(v) => v, Err(_) => return None };
        let fr = st.frames.last().unwrap();
        let j = fr.f.ipdom[fr.bb]?;
        let mut tgt = [other, other]; // [false, true]
        let c = match &v {
            Val::C(c) => {
                for (val, t) in br { if *val < 2 { tgt[*val as usize] = *t; } }
                if !fr.f.can_return[tgt[0]] || !fr.f.can_return[tgt[1]] { return None; }
                *c
            }
            // a selection among numbers: the same switch again on either side
            Val::Phi(c, a, b) => {
                let m = match Self::op_ty(op).map(|t| self.cx.ty(t)) { Some(t) => match &t.k { TyI::Int { bits, .. } => mask(*bits), _ => u128::MAX }, None => u128::MAX };
                let mut todo: Vec<&Val> = vec![a, b];
                while let Some(x) = todo.pop() {
                    match x {
                        Val::Phi(_, a, b) => todo.extend([&**a, &**b]),
                        Val::I(k) => { let t = br.iter().find(|(x, _)| (*x & m) == (*k as u128 & m)).map_or(other, |x| x.1); if !fr.f.can_return[t] { return None; } }
                        _ => return None,
                    }
                }
                tgt = [fr.bb, fr.bb];
                *c
            }
            _ => return None,
        };
        if self.dec(st, c).is_ok() { return None; }
        if self.depth > 40 { return None; }
        let d = st.frames.len();
        let mut ends = vec![];
        self.depth += 1;
        for (k, t) in [(true, tgt[1]), (false, tgt[0])] {
            let mut s = st.clone();
            s.assumed.insert(c, k);
            let f = s.frames.last_mut().unwrap();
            if f.bb != t {
                f.bb = t;
                f.si = 0;
            }
            self.mark(&s);
            let mut r = self.segment(s, Some((d, j)));
            if r.len() != 1 { self.depth -= 1; return Some(None); }
            match r.pop().unwrap() { Seg::Reached(s) => ends.push(s), Seg::Out(_) => { self.depth -= 1; return Some(None); } }
        }
        self.depth -= 1;
        let b = ends.pop().unwrap();
        let mut a = ends.pop().unwrap();
        if a.mem.len() != b.mem.len() { return Some(None); }
        for (x, y) in a.mem.iter_mut().zip(&b.mem) { if !veq(x, y) { *x = join(c, x, y); } }
        a.assumed = st.assumed.clone();
        a.facts = st.facts.clone();
        Some(Some(a))
    }
    fn mark(&mut self, st: &State) {
        let f = st.frames.last().unwrap();
        if f.f.in_stroke {
            let e = self.cov.entry(f.f.inst).or_insert_with(|| (f.f.clone(), HashSet::new()));
            e.1.insert(f.bb);
        }
    }

    // ---- memory
    fn load_at(&self, st: &State, b: Base, p: &[Step]) -> R<Val> {
        match b {
            Base::Mem(i) => match st.mem.get(i) { Some(v) => load(v, p), None => uns("dangling pointer") },
            Base::Glob(i) => load(&self.cx.globals[i], p),
        }
    }
    fn store_at(&self, st: &mut State, l: &Loc, v: Val) -> R<()> {
        match l {
            Loc::Zst => Ok(()),
            Loc::At(Base::Mem(i), p) => match st.mem.get_mut(*i) { Some(s) => store(s, p, v), None => uns("dangling pointer") },
            Loc::At(Base::Glob(_), _) => uns("store to a constant"),
        }
    }
    fn addr(&self, st: &State, pl: &Pl) -> R<Loc> {
        let fr = st.frames.last().unwrap();
        let mut base = Base::Mem(fr.base + pl.local);
        let mut path: Vec<Step> = vec![];
        for e in &pl.proj {
            match e {
                Pj::Deref => {
                    let v = self.taken(st, self.load_at(st, base, &path)?);
                    match v {
                        Val::P(p) => { base = p.base; path = (*p.path).clone(); }
                        Val::Phi(c, _, _) => return Err(E::Decide(c)),
                        Val::I(_) | Val::Unit if pl.zst => return Ok(Loc::Zst),
                        v => return uns(format!("dereference of {}", kind(&v))),
                    }
                }
                Pj::Field(i) => push(&mut path, Step::F(*i as u32)),
                Pj::Tail(i, slice) => {
                    let n = match path.last().copied() { Some(Step::U(n)) => n, _ => return uns("unsized field") };
                    push(&mut path, Step::F(*i as u32));
                    path.push(if *slice { Step::V(0, n) } else { Step::U(n) });
                }
                Pj::Zst => push(&mut path, Step::Z),
                Pj::Index(l) => { let k = as_i(&st.mem[fr.base + *l])?; push(&mut path, Step::I(k as i64)); }
                Pj::ConstIdx { off, from_end, len } => {
                    let k = if *from_end {
                        let n = match (len, path.last()) { (_, Some(Step::V(_, n))) => *n, (Some(n), _) => *n, _ => return uns("constant index") };
                        n as i64 - *off as i64
                    } else { *off as i64 };
                    push(&mut path, Step::I(k));
                }
                Pj::Sub { from, to, from_end, len } => {
                    let n = match (len, path.last()) { (_, Some(Step::V(_, n))) => *n, (Some(n), _) => *n, _ => return uns("subslice") };
                    let k = if *from_end { n - from - to } else { to - from };
                    push(&mut path, Step::V(*from as i64, k));
                }
            }
        }
        Ok(Loc::At(base, path))
    }
    fn read(&self, st: &State, pl: &Pl) -> R<Val> {
        if pl.zst { return Ok(Val::Unit); }
        if pl.proj.is_empty() { return Ok(self.taken(st, st.mem[st.frames.last().unwrap().base + pl.local].clone())); }
        match self.addr(st, pl)? { Loc::Zst => Ok(Val::Unit), Loc::At(b, p) => Ok(self.taken(st, self.load_at(st, b, &p)?)) }
    }
    /// a selection whose condition is decided on this trace is the value selected
    fn taken(&self, st: &State, mut v: Val) -> Val {
        while let Val::Phi(c, a, b) = &v {
            v = match self.dec(st, *c) { Ok(true) => (**a).clone(), Ok(false) => (**b).clone(), Err(_) => break };
        }
        v
    }
    pub fn operand(&self, st: &State, o: &Op) -> R<Val> {
        match o { Op::Copy(p) => self.read(st, p), Op::Const(v, _) => Ok(v.clone()), Op::Unsupported(s) => uns(s.clone()) }
    }
    fn op_ty(o: &Op) -> Option<Ty> { match o { Op::Copy(p) => Some(p.ty), Op::Const(_, t) => Some(*t), _ => None } }

    // ---- calls
    fn enter(&mut self, st: &mut State, inst: Instance, args: Vec<Val>, dest: Loc, target: Option<usize>) -> R<()> {
        let f = match self.cx.fun(inst) { Some(f) => f, None => return uns(format!("no body for {}", self.cx.name(inst))) };
        if st.frames.len() > 200 { return uns("recursion"); }
        if f.in_stroke && !self.entered.iter().any(|g| Rc::ptr_eq(g, &f)) { self.entered.push(f.clone()); }
        let base = st.mem.len();
        let mut args = args;
        if let Some(s) = f.spread {
            // s is the local that receives the tuple of the remaining arguments
            let k = s - 1;
            let rest = args.split_off(k.min(args.len()));
            args.push(agg(0, rest));
        }
        if args.len() != f.nargs { return uns(format!("{} arguments for {} ({} expected)", args.len(), f.name, f.nargs)); }
        st.mem.push(Val::Uninit);
        st.mem.extend(args);
        for _ in st.mem.len() - base..f.locals.len() { st.mem.push(Val::Uninit); }
        st.frames.push(Frame { f, bb: 0, si: 0, base, dest, target });
        self.mark(st);
        Ok(())
    }
    fn step(&mut self, st: &mut State) -> R<Flow> {
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let (bb, si) = (fr.bb, fr.si);
        let blk = &f.blocks[bb];
        if si < blk.st.len() {
            match &blk.st[si] {
                St::Nop => {}
                St::Live(l) | St::Dead(l) => { let b = st.frames.last().unwrap().base; st.mem[b + *l] = Val::Uninit; }
                St::Assign(pl, rv) => {
                    let v = self.rvalue(st, rv)?;
                    if !pl.zst {
                        if pl.proj.is_empty() { let b = st.frames.last().unwrap().base; st.mem[b + pl.local] = v; }
                        else { let l = self.addr(st, pl)?; self.store_at(st, &l, v)?; }
                    }
                }
                St::SetDiscr(pl, v) => {
                    let l = self.addr(st, pl)?;
                    if let Loc::At(b, p) = &l {
                        let x = match self.load_at(st, *b, p)? { Val::A(a) => agg(*v, a.f.clone()), _ => agg(*v, vec![]) };
                        self.store_at(st, &l, x)?;
                    }
                }
                St::CopyNon(s, d, n, _) => {
                    let (s, d, n) = (self.operand(st, s)?, self.operand(st, d)?, as_i(&self.operand(st, n)?)?);
                    self.copy(st, &s, &d, n)?;
                }
            }
            st.frames.last_mut().unwrap().si += 1;
            return Ok(Flow::Next);
        }
        let goto = |st: &mut State, t: usize| { let f = st.frames.last_mut().unwrap(); f.bb = t; f.si = 0; };
        match &blk.te {
            Te::Goto(t) => { goto(st, *t); self.mark(st); Ok(Flow::Next) }
            Te::Switch(o, br, other) => {
                let v = self.operand(st, o)?;
                let k: i128 = match &v {
                    Val::C(c) => self.dec(st, *c)? as i128,
                    v => as_i(v)?,
                };
                let m = match Self::op_ty(o).map(|t| self.cx.ty(t)) { Some(t) => match &t.k { TyI::Int { bits, .. } => mask(*bits), _ => u128::MAX }, None => u128::MAX };
                let mut t = *other;
                for (x, b) in br { if (*x & m) == (k as u128 & m) { t = *b; break; } }
                goto(st, t);
                self.mark(st);
                Ok(Flow::Next)
            }
            Te::Return => {
                let fr = st.frames.pop().unwrap();
                let v = std::mem::replace(&mut st.mem[fr.base], Val::Unit);
                st.mem.truncate(fr.base);
                if st.frames.is_empty() { return Ok(Flow::Done(v)); }
                self.store_at(st, &fr.dest, v)?;
                match fr.target { Some(t) => { goto(st, t); self.mark(st); Ok(Flow::Next) } None => Err(E::Panic("diverging call returned".into())) }
            }
            Te::Unreachable => Err(E::Panic("unreachable code reached".into())),
            Te::Assert { cond, expected, msg, target } => {
                let c = as_c(&self.operand(st, cond)?)?;
                let b = self.dec(st, c)?;
                if b == *expected { goto(st, *target); self.mark(st); Ok(Flow::Next) } else { Err(E::Panic(msg.clone())) }
            }
            Te::Drop(pl, t) => {
                let inst = Instance::resolve_drop_in_place(pl.ty);
                if pl.zst || inst.is_empty_shim() { goto(st, *t); return Ok(Flow::Next); }
                let l = self.addr(st, pl)?;
                match l {
                    Loc::Zst => { goto(st, *t); Ok(Flow::Next) }
                    Loc::At(b, p) => { self.enter(st, inst, vec![ptr(b, p)], Loc::Zst, Some(*t))?; Ok(Flow::Next) }
                }
            }
            Te::Unsupported(s) => uns(s.clone()),
            Te::Call { f: callee, args, argtys, dest, target } => {
                let mut vals = vec![];
                let mut tys = argtys.clone();
                // diverging calls are panics; do not look at their arguments
                if target.is_none() {
                    let n = match callee { Callee::Direct(d, a, _) => match self.cx.resolve(*d, a) { Some(i) => self.cx.name(i).to_string(), None => format!("{:?}", d) }, _ => "indirect call".into() };
                    let mut m = base_name(&n);
                    for a in args { if let Ok(Val::P(p)) = self.operand(st, a) { if let Ok(s) = self.text(st, &p) { m = format!("{} \"{}\"", m, s); } } }
                    return Err(E::Panic(m));
                }
                for a in args { vals.push(self.operand(st, a)?); }
                let (inst, untuple) = match callee {
                    Callee::Direct(d, a, rc) => match self.cx.resolve(*d, a) { Some(i) => (i, *rc), None => return uns(format!("unresolved call {:?}", d)) },
                    Callee::Indirect(o, _) => match self.operand(st, o)? { Val::Fn(i) => (i, false), Val::Phi(c, _, _) => return Err(E::Decide(c)), v => return uns(format!("call through {}", kind(&v))) },
                };
                let loc = if dest.zst { Loc::Zst } else { self.addr(st, dest)? };
                if untuple && !vals.is_empty() {
                    let tup = vals.pop().unwrap();
                    let tt = tys.pop().unwrap();
                    let parts = match &self.cx.ty(tt).k { TyI::Tuple(v) => v.clone(), _ => vec![] };
                    match tup {
                        Val::A(a) => vals.extend(a.f.iter().cloned()),
                        _ => vals.extend(parts.iter().map(|_| Val::Unit)),
                    }
                    tys.extend(parts);
                }
                self.call(st, inst, vals, tys, loc, target.unwrap())
            }
        }
    }
    fn text(&self, st: &State, p: &Ptr) -> R<String> {
        match self.load_at(st, p.base, &p.path)? {
            Val::A(a) => { let mut s = String::new(); for x in &a.f { match x { Val::I(i) if *i > 0 && *i < 128 => s.push(*i as u8 as char), _ => return uns("text") } } Ok(s) }
            _ => uns("text"),
        }
    }
    fn finish(&mut self, st: &mut State, loc: &Loc, v: Val, target: usize) -> R<Flow> {
        self.store_at(st, loc, v)?;
        let f = st.frames.last_mut().unwrap();
        f.bb = target;
        f.si = 0;
        self.mark(st);
        Ok(Flow::Next)
    }
    fn call(&mut self, st: &mut State, inst: Instance, args: Vec<Val>, tys: Vec<Ty>, loc: Loc, target: usize) -> R<Flow> {
        let name = self.cx.name(inst);
        if let InstanceKind::Virtual { .. } = inst.kind { return uns(format!("dynamic call {}", name)); }
        if inst.kind == InstanceKind::Shim && inst.is_empty_shim() { return self.finish(st, &loc, Val::Unit, target); }
        if inst.kind == InstanceKind::Intrinsic {
            let iname = inst.intrinsic_name().map(|s| s.to_string()).unwrap_or_default();
            if iname == "const_eval_select" {
                // run-time version: (args tuple, const fn, rt fn)
                let rt = tys[2];
                if let TyI::FnDef(d, a) = &self.cx.ty(rt).k {
                    let i = match self.cx.resolve(*d, a) { Some(i) => i, None => return uns("const_eval_select") };
                    let n = match &self.cx.ty(tys[0]).k { TyI::Tuple(v) => v.len(), _ => 0 };
                    let a: Vec<Val> = match &args[0] { Val::A(a) => a.f.clone(), _ => vec![Val::Unit; n] };
                    self.enter(st, i, a, loc, Some(target))?;
                    return Ok(Flow::Next);
                }
                return uns("const_eval_select");
            }
            match self.intrinsic(st, &iname, inst, &args, &tys)? {
                Some(v) => return self.finish(st, &loc, v, target),
                None => if self.cx.fun(inst).is_none() { return uns(format!("intrinsic {}", iname)); },
            }
        } else {
            let krate = inst.def.krate().name;
            let b = base_name(&name);
            if krate != "stroke" && krate != "stroke_harness" {
                if let Some(v) = self.float_fn(st, &krate, &name, &b, &args, &tys)? { return self.finish(st, &loc, v, target); }
                if krate == "core" && b == "select_unpredictable" && args.len() == 3 {
                    let c = match &args[0] { Val::I(i) => *i != 0, Val::C(c) => self.dec(st, *c)?, v => return uns(format!("selection by {}", kind(v))) };
                    return self.finish(st, &loc, args[if c { 1 } else { 2 }].clone(), target);
                }
                if krate == "core" && (b == "sort_unstable_by" || b == "sort_by" || b == "sort_unstable" || b == "sort") {
                    if let Some(()) = self.sort(st, inst, &b, &args, &tys)? { return self.finish(st, &loc, Val::Unit, target); }
                }
                *self.called.entry(format!("{}::{}", krate, b)).or_insert(0) += 1;
            }
        }
        self.enter(st, inst, args, loc, Some(target))?;
        Ok(Flow::Next)
    }
    fn copy(&mut self, st: &mut State, s: &Val, d: &Val, n: i128) -> R<()> {
        if n == 0 { return Ok(()); }
        let (s, d) = (as_p(s)?, as_p(d)?);
        let mut vals = vec![];
        for i in 0..n { if let Val::P(q) = ptr_add(&s, i as i64) { vals.push(self.load_at(st, q.base, &q.path)?); } }
        for (i, v) in vals.into_iter().enumerate() {
            if let Val::P(q) = ptr_add(&d, i as i64) { self.store_at(st, &Loc::At(q.base, (*q.path).clone()), v)?; }
        }
        Ok(())
    }
    /// numeric functions of the standard library, libm and num_traits
    fn float_fn(&mut self, st: &State, krate: &str, name: &str, b: &str, args: &[Val], tys: &[Ty]) -> R<Option<Val>> {
        if args.is_empty() || !matches!(self.cx.ty(tys[0]).k, TyI::Float(32)) { return self.wide_fn(st, krate, name, b, args, tys); }
        // single precision: the same functions, rounded unless the result is one of the numbers it started from
        let name = name.replace("f32", "f64");
        let b = if krate == "libm" { b.strip_suffix('f').unwrap_or(b) } else { b };
        let exact = matches!(b, "abs" | "fabs" | "floor" | "ceil" | "round" | "trunc" | "signum" | "min" | "fmin" | "max" | "fmax" | "minimum" | "maximum" | "clamp" | "copysign" | "rem" | "fmod");
        Ok(match self.wide_fn(st, krate, &name, b, args, tys)? {
            Some(Val::F(x)) if !exact => Some(Val::F(fun("f32", vec![x]))),
            r => r,
        })
    }
    fn wide_fn(&mut self, st: &State, krate: &str, name: &str, b: &str, args: &[Val], tys: &[Ty]) -> R<Option<Val>> {
        if args.is_empty() || !matches!(krate, "core" | "std" | "num_traits" | "libm" | "compiler_builtins") { return Ok(None); }
        let byref = |s: &mut Self, i: usize| -> R<Option<Val>> {
            match &s.cx.ty(tys[i]).k {
                TyI::Float(64 | 32) => Ok(Some(args[i].clone())),
                TyI::Ptr(p) => { let p = *p; if matches!(s.cx.ty(p).k, TyI::Float(64 | 32)) { let q = as_p(&args[i])?; Ok(Some(s.load_at(st, q.base, &q.path)?)) } else { Ok(None) } }
                _ => Ok(None),
            }
        };
        let is_f = matches!(self.cx.ty(tys[0]).k, TyI::Float(64 | 32));
        if b == "total_cmp" {
            if let (Some(x), Some(y)) = (byref(self, 0)?, byref(self, 1)?) {
                let (x, y) = (as_f(&x)?, as_f(&y)?);
                if is_nonfinite(x) || is_nonfinite(y) { return uns("total_cmp of a non-finite value"); }
                let l = self.dec(st, lt(x, y))?;
                if l { return Ok(Some(agg(0, vec![]))); }
                let g = self.dec(st, lt(y, x))?;
                return Ok(Some(agg(if g { 2 } else { 1 }, vec![])));
            }
        }
        if !is_f { return Ok(None); }
        if krate == "core" && !name.contains("f64") { return Ok(None); }
        let x = match as_f(&args[0]) { Ok(x) => x, Err(_) => return Ok(None) };
        let y = if args.len() > 1 && matches!(self.cx.ty(tys[1]).k, TyI::Float(64 | 32)) { as_f(&args[1]).ok() } else { None };
        let op: &'static str = match (b, args.len()) {
            ("sqrt" | "sqrtf64", 1) => return self.sqrt(st, x).map(|v| Some(Val::F(v))),
            ("abs" | "fabs" | "fabsf64", 1) => "abs",
            ("floor", 1) => "floor", ("ceil", 1) => "ceil", ("round", 1) => "round", ("trunc", 1) => "trunc",
            ("signum", 1) => "signum",
            ("sin", 1) => "sin", ("cos", 1) => "cos", ("acos", 1) => "acos", ("exp", 1) => "exp", ("ln" | "log", 1) => "ln", ("cbrt", 1) => "cbrt",
            ("recip", 1) => return self.divide(st, cf(1.0), x).map(|v| Some(Val::F(v))),
            ("is_nan", 1) => return Ok(Some(vbool(is_nan(x)))),
            ("is_finite", 1) => return Ok(Some(vbool(!is_nonfinite(x)))),
            ("is_infinite", 1) => return Ok(Some(vbool(is_nonfinite(x) && !is_nan(x)))),
            ("is_sign_negative", 1) => return Ok(Some(Val::C(negative(x)))),
            ("is_sign_positive", 1) => return Ok(Some(Val::C(not(negative(x))))),
            ("min" | "fmin" | "minimum" | "fminimum", 2) if y.is_some() => "min",
            ("max" | "fmax" | "maximum" | "fmaximum", 2) if y.is_some() => "max",
            ("powf" | "pow", 2) if y.is_some() => return self.powf(st, x, y.unwrap()).map(|v| Some(Val::F(v))),
            ("clamp", 3) => {
                let (lo, hi) = (as_f(&args[1])?, as_f(&args[2])?);
                // anything else is left to the function's own body
                if is_nan(x) || !matches!(self.dec(st, le(lo, hi)), Ok(true)) { return Ok(None); }
                let m = self.minmax(st, "max", x, lo);
                return Ok(Some(Val::F(self.minmax(st, "min", m, hi))));
            }
            ("hypot", 2) if y.is_some() => "hypot",
            ("rem" | "fmod", 2) if y.is_some() && krate == "libm" => return Ok(Some(Val::F(rem(x, y.unwrap())))),
            ("powi", 2) => match &args[1] { Val::I(k) => return Ok(Some(Val::F(self.powi(st, x, *k)?))), _ => return Ok(None) },
            ("mul_add" | "fma", 3) => { let (y, z) = (as_f(&args[1])?, as_f(&args[2])?); return Ok(Some(Val::F(fun("mul_add", vec![x, y, z])))); }
            ("copysign", 2) if y.is_some() => {
                let a = fun("abs", vec![x]);
                let s = self.dec(st, negative(y.unwrap()))?;
                return Ok(Some(Val::F(if s { neg(a) } else { a })));
            }
            _ => return Ok(None),
        };
        if let ("min" | "max", Some(y)) = (op, y) { return Ok(Some(Val::F(self.minmax(st, op, x, y)))); }
        let mut v = vec![x];
        if let Some(y) = y { v.push(y); }
        Ok(Some(Val::F(fun(op, v))))
    }
    /// the argument that is the minimum / maximum when the path condition settles it
    fn minmax(&self, st: &State, op: &'static str, x: Tm, y: Tm) -> Tm {
        if !self.join && !is_nan(x) && !is_nan(y) && (as_const(x).is_none() || as_const(y).is_none()) {
            let m = st.facts.cmp(x, y);
            if m != 0 && m & POS == 0 { return if op == "min" { x } else { y }; }
            if m != 0 && m & NEG == 0 { return if op == "min" { y } else { x }; }
        }
        fun(op, vec![x, y])
    }
    fn powi(&mut self, st: &State, x: Tm, k: i128) -> R<Tm> {
        if k == 0 { return Ok(cf(1.0)); }
        if k == 1 { return Ok(x); }
        if k < 0 { let d = self.powi(st, x, -k)?; return self.divide(st, cf(1.0), d); }
        if k > 64 { return uns("large power"); }
        if as_const(x).is_some() { return Ok(fun("powi", vec![x, cf(k as f64)])); }
        if k == 2 { return Ok(mul(x, x)); }
        Ok(fun("powi", vec![x, cf(k as f64)]))
    }
    fn powf(&mut self, st: &State, x: Tm, y: Tm) -> R<Tm> {
        if let Some(k) = as_f64(y) {
            if k == 0.5 { return self.sqrt(st, x); }
            if k.fract() == 0.0 && k.abs() <= 64.0 { return self.powi(st, x, k as i128); }
        }
        Ok(fun("powf", vec![x, y]))
    }
    fn sqrt(&mut self, st: &State, x: Tm) -> R<Tm> {
        if as_const(x).is_none() && !nonneg(x) && !self.join {
            if self.dec(st, lt(x, cf(0.0)))? { return Ok(cf(f64::NAN)); }
        }
        Ok(fun("sqrt", vec![x]))
    }
    fn divide(&mut self, st: &State, a: Tm, b: Tm) -> R<Tm> {
        if as_const(b).is_none() && !self.join {
            if self.dec(st, eq(b, cf(0.0)))? {
                if self.dec(st, eq(a, cf(0.0)))? { return Ok(cf(f64::NAN)); }
                return Ok(if self.dec(st, lt(a, cf(0.0)))? { cf(f64::NEG_INFINITY) } else { cf(f64::INFINITY) });
            }
        } else if as_f64(b) == Some(0.0) && as_const(a).is_none() {
            if self.dec(st, eq(a, cf(0.0)))? { return Ok(cf(f64::NAN)); }
            return Ok(if self.dec(st, lt(a, cf(0.0)))? { cf(f64::NEG_INFINITY) } else { cf(f64::INFINITY) });
        }
        Ok(div(a, b))
    }
    /// numbers sorted by a comparator: the order statistics of the multiset
    fn sort(&mut self, st: &mut State, inst: Instance, b: &str, args: &[Val], tys: &[Ty]) -> R<Option<()>> {
        let p = as_p(&args[0])?;
        let elems = match self.load_at(st, p.base, &p.path)? { Val::A(a) => a.f.clone(), _ => return Ok(None) };
        if elems.len() < 2 || !elems.iter().all(|e| matches!(e, Val::F(_))) { return Ok(None); }
        if b == "sort_unstable" || b == "sort" { return Ok(None); }
        let t: Vec<Tm> = elems.iter().map(|e| as_f(e).unwrap()).collect();
        let cmp_ty = tys[1];
        let cmp = {
            let ti = self.cx.ty(cmp_ty);
            match &ti.k {
                TyI::Closure(d, a, _) => match Instance::resolve_closure(*d, a, ClosureKind::FnMut) { Ok(i) => (i, true), Err(_) => return Ok(None) },
                TyI::FnDef(d, a) => match self.cx.resolve(*d, a) { Some(i) => (i, false), None => return Ok(None) },
                _ => return Ok(None),
            }
        };
        let _ = inst;
        let run = |s: &mut Self, x: Tm, y: Tm| -> Vec<Outcome> {
            let mut mem = st.mem.clone();
            let k = mem.len();
            mem.push(args[1].clone());
            mem.push(Val::F(x));
            mem.push(Val::F(y));
            let (px, py) = (ptr(Base::Mem(k + 1), vec![]), ptr(Base::Mem(k + 2), vec![]));
            let a = if cmp.1 { vec![ptr(Base::Mem(k), vec![]), px, py] } else { vec![px, py] };
            let j = s.join;
            s.join = false;
            let o = s.run_in(mem, cmp.0, a, st.facts.clone());
            s.join = j;
            o
        };
        let nonf: Vec<Tm> = t.iter().copied().filter(|x| is_nonfinite(*x)).collect();
        if !nonf.is_empty() {
            let other = t.iter().copied().find(|x| !is_nonfinite(*x)).unwrap_or(cf(0.0));
            for o in run(self, nonf[0], other).into_iter().chain(run(self, other, nonf[0])) { if let Res::Panic(m) = o.res { return Err(E::Panic(format!("comparison of a non-finite value: {}", m))); } }
            if nonf.iter().any(|x| is_nan(*x)) { return Ok(None); }
        }
        self.fresh += 1;
        let (x, y) = (var(&format!("cmp_l{}", self.fresh)), var(&format!("cmp_r{}", self.fresh)));
        let mut asc = true;
        let mut desc = true;
        for o in run(self, x, y) {
            let m = o.facts.cmp(x, y);
            match o.res {
                Res::Ret(Val::A(a)) => {
                    let k = a.variant;
                    if m == NEG { asc &= k == 0; desc &= k == 2; } else if m == POS { asc &= k == 2; desc &= k == 0; }
                    else if m != ZERO { asc = false; desc = false; }
                }
                Res::Panic(m) => return Err(E::Panic(m)),
                _ => return Ok(None),
            }
        }
        if asc == desc { return Ok(None); }
        let n = t.len();
        let mut out: Vec<Tm>;
        if t.iter().all(|x| as_const(*x).is_some()) {
            out = t.clone();
            out.sort_by(|a, b| as_f64(*a).unwrap().partial_cmp(&as_f64(*b).unwrap()).unwrap());
        } else {
            let mut u: Vec<Tm> = t.clone();
            u.sort();
            let lo = u[1..].iter().fold(u[0], |a, b| fun("min", vec![a, *b]));
            let hi = u[1..].iter().fold(u[0], |a, b| fun("max", vec![a, *b]));
            out = vec![lo];
            for k in 1..n - 1 { let mut v = vec![cf(k as f64)]; v.extend(u.iter().copied()); out.push(fun("ord", v)); }
            out.push(hi);
        }
        if desc { out.reverse(); }
        self.store_at(st, &Loc::At(p.base, (*p.path).clone()), agg(0, out.into_iter().map(Val::F).collect()))?;
        Ok(Some(()))
    }
    fn tyarg(inst: Instance, k: usize) -> Option<Ty> {
        inst.args().0.iter().filter_map(|a| match a { GenericArgKind::Type(t) => Some(*t), _ => None }).nth(k)
    }
    fn intrinsic(&mut self, st: &mut State, n: &str, inst: Instance, a: &[Val], tys: &[Ty]) -> R<Option<Val>> {
        let usz = Ty::usize_ty();
        Ok(Some(match n {
            "assume" | "likely" | "unlikely" | "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "forget" => if n == "likely" || n == "unlikely" { a[0].clone() } else { Val::Unit },
            "black_box" => a[0].clone(),
            "is_val_statically_known" => vbool(false),
            "ub_checks" | "contract_checks" => vbool(false),
            "overflow_checks" => vbool(true),
            "caller_location" => Val::Opaque,
            "abort" | "unreachable" | "breakpoint" => return Err(E::Panic(n.to_string())),
            "size_of" | "align_of" | "min_align_of" | "pref_align_of" | "size_of_val" => {
                let t = Self::tyarg(inst, 0).ok_or(E::Unsup("size_of".into()))?;
                let l = t.layout().map_err(|_| E::Unsup("layout".into()))?.shape();
                Val::I(if n.starts_with("size") { l.size.bytes() as i128 } else { l.abi_align as i128 })
            }
            "needs_drop" => { let t = Self::tyarg(inst, 0).ok_or(E::Unsup(n.into()))?; vbool(!Instance::resolve_drop_in_place(t).is_empty_shim()) }
            "ptr_metadata" => match &a[0] { Val::P(p) => match p.path.last() { Some(Step::V(_, n)) | Some(Step::U(n)) => Val::I(*n as i128), _ => Val::Unit }, _ => Val::Unit },
            "offset" | "arith_offset" | "ptr_add" => { if let Val::I(_) = a[0] { a[0].clone() } else { let p = as_p(&a[0])?; ptr_add(&p, as_i(&a[1])? as i64) } }
            "ptr_offset_from" | "ptr_offset_from_unsigned" | "sub_ptr" => {
                if let (Val::I(x), Val::I(y)) = (&a[0], &a[1]) { if x == y { return Ok(Some(Val::I(0))); } }
                let d = ptr_diff(&as_p(&a[0])?, &as_p(&a[1])?)?;
                Val::I(d as i128)
            }
            "ptr_guaranteed_cmp" => Val::I(2),
            "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => match &a[0] { Val::P(p) => self.load_at(st, p.base, &p.path)?, Val::I(_) => Val::Unit, v => return uns(format!("read through {}", kind(v))) },
            "write_via_move" | "volatile_store" => { match &a[0] { Val::P(p) => { let l = Loc::At(p.base, (*p.path).clone()); self.store_at(st, &l, a[1].clone())?; } Val::I(_) => {} v => return uns(format!("write through {}", kind(v))) } Val::Unit }
            "copy" | "copy_nonoverlapping" => {
                let n = as_i(&a[2])?;
                if self.cx.is_zst(Self::tyarg(inst, 0).ok_or(E::Unsup(n.to_string()))?) { return Ok(Some(Val::Unit)); }
                self.copy(st, &a[0], &a[1], n)?;
                Val::Unit
            }
            "typed_swap_nonoverlapping" => {
                let (p, q) = (as_p(&a[0])?, as_p(&a[1])?);
                let x = self.load_at(st, p.base, &p.path)?;
                let y = self.load_at(st, q.base, &q.path)?;
                self.store_at(st, &Loc::At(p.base, (*p.path).clone()), y)?;
                self.store_at(st, &Loc::At(q.base, (*q.path).clone()), x)?;
                Val::Unit
            }
            "transmute" | "transmute_unchecked" => { let (s, d) = (Self::tyarg(inst, 0).unwrap(), Self::tyarg(inst, 1).unwrap()); self.transmute(&a[0], s, d)? }
            "aggregate_raw_ptr" => self.raw_ptr(&a[0], &a[1])?,
            "discriminant_value" => { let p = as_p(&a[0])?; let v = self.load_at(st, p.base, &p.path)?; let t = match &self.cx.ty(tys[0]).k { TyI::Ptr(p) => *p, _ => return uns(n) }; self.discr(&v, t)? }
            "wrapping_add" | "unchecked_add" => self.int_op(BinOp::Add, &a[0], &a[1], tys[0], false)?,
            "wrapping_sub" | "unchecked_sub" => self.int_op(BinOp::Sub, &a[0], &a[1], tys[0], false)?,
            "wrapping_mul" | "unchecked_mul" => self.int_op(BinOp::Mul, &a[0], &a[1], tys[0], false)?,
            "exact_div" | "unchecked_div" => self.int_op(BinOp::Div, &a[0], &a[1], tys[0], false)?,
            "unchecked_rem" => self.int_op(BinOp::Rem, &a[0], &a[1], tys[0], false)?,
            "unchecked_shl" => self.int_op(BinOp::Shl, &a[0], &a[1], tys[0], false)?,
            "unchecked_shr" => self.int_op(BinOp::Shr, &a[0], &a[1], tys[0], false)?,
            "disjoint_bitor" => self.int_op(BinOp::BitOr, &a[0], &a[1], tys[0], false)?,
            "add_with_overflow" => self.int_op(BinOp::Add, &a[0], &a[1], tys[0], true)?,
            "sub_with_overflow" => self.int_op(BinOp::Sub, &a[0], &a[1], tys[0], true)?,
            "mul_with_overflow" => self.int_op(BinOp::Mul, &a[0], &a[1], tys[0], true)?,
            "saturating_add" | "saturating_sub" => {
                let (bits, signed) = self.int_ty(tys[0])?;
                let (x, y) = (as_i(&a[0])?, as_i(&a[1])?);
                let r = if n == "saturating_add" { x + y } else { x - y };
                let (lo, hi) = if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, mask(bits) as i128) };
                Val::I(r.clamp(lo, hi))
            }
            "three_way_compare" => { let (x, y) = (as_i(&a[0])?, as_i(&a[1])?); agg(if x < y { 0 } else if x == y { 1 } else { 2 }, vec![]) }
            "ctpop" => Val::I((as_i(&a[0])? as u128 & mask(self.int_ty(tys[0])?.0)).count_ones() as i128),
            "ctlz" | "ctlz_nonzero" => { let b = self.int_ty(tys[0])?.0; Val::I(((as_i(&a[0])? as u128 & mask(b)).leading_zeros() as i128) - (128 - b as i128)) }
            "cttz" | "cttz_nonzero" => { let b = self.int_ty(tys[0])?.0; Val::I(((as_i(&a[0])? as u128 & mask(b)).trailing_zeros()).min(b) as i128) }
            "select_unpredictable" => { let c = as_c(&a[0])?; join(c, &a[1], &a[2]) }
            "raw_eq" => {
                let (p, q) = (as_p(&a[0])?, as_p(&a[1])?);
                let (x, y) = (self.load_at(st, p.base, &p.path)?, self.load_at(st, q.base, &q.path)?);
                fn all_int(v: &Val) -> bool { match v { Val::I(_) | Val::Unit => true, Val::A(a) => a.f.iter().all(all_int), _ => false } }
                if all_int(&x) && all_int(&y) { vbool(veq(&x, &y)) } else { return uns("bitwise comparison") }
            }
            "sqrtf64" => Val::F(self.sqrt(st, as_f(&a[0])?)?),
            "fabsf64" => Val::F(fun("abs", vec![as_f(&a[0])?])),
            "fabs" if matches!(self.cx.ty(tys[0]).k, TyI::Float(64 | 32)) => Val::F(fun("abs", vec![as_f(&a[0])?])),
            "powif64" => { let k = as_i(&a[1])?; Val::F(self.powi(st, as_f(&a[0])?, k)?) }
            "powf64" => Val::F(self.powf(st, as_f(&a[0])?, as_f(&a[1])?)?),
            "fmaf64" | "fmuladdf64" => Val::F(fun("mul_add", vec![as_f(&a[0])?, as_f(&a[1])?, as_f(&a[2])?])),
            "minnumf64" | "minimumf64" | "minimum_number_nsz_f64" | "minimum_number_f64" => Val::F(self.minmax(st, "min", as_f(&a[0])?, as_f(&a[1])?)),
            "maxnumf64" | "maximumf64" | "maximum_number_nsz_f64" | "maximum_number_f64" => Val::F(self.minmax(st, "max", as_f(&a[0])?, as_f(&a[1])?)),
            "floorf64" => Val::F(fun("floor", vec![as_f(&a[0])?])),
            "ceilf64" => Val::F(fun("ceil", vec![as_f(&a[0])?])),
            "truncf64" => Val::F(fun("trunc", vec![as_f(&a[0])?])),
            "roundf64" => Val::F(fun("round", vec![as_f(&a[0])?])),
            "sinf64" => Val::F(fun("sin", vec![as_f(&a[0])?])),
            "cosf64" => Val::F(fun("cos", vec![as_f(&a[0])?])),
            "expf64" => Val::F(fun("exp", vec![as_f(&a[0])?])),
            "logf64" => Val::F(fun("ln", vec![as_f(&a[0])?])),
            "fadd_fast" | "fadd_algebraic" => Val::F(add(as_f(&a[0])?, as_f(&a[1])?)),
            "fmul_fast" | "fmul_algebraic" => Val::F(mul(as_f(&a[0])?, as_f(&a[1])?)),
            "fsub_fast" | "fsub_algebraic" => Val::F(sub(as_f(&a[0])?, as_f(&a[1])?)),
            "fdiv_fast" | "fdiv_algebraic" => { let d = self.divide(st, as_f(&a[0])?, as_f(&a[1])?)?; Val::F(d) }
            "type_id_eq" => return uns("type_id"),
            "slice_get_unchecked" => {
                let p = as_p(&a[0])?;
                let mut q = (*p.path).clone();
                push(&mut q, Step::I(as_i(&a[1])? as i64));
                ptr(p.base, q)
            }
            _ => { let _ = usz; return Ok(None); }
        }))
    }
    fn int_ty(&mut self, t: Ty) -> R<(u32, bool)> { match &self.cx.ty(t).k { TyI::Int { bits, signed } => Ok((*bits, *signed)), TyI::Char => Ok((32, false)), TyI::Bool => Ok((8, false)), _ => uns("integer type expected") } }
    fn int_op(&mut self, op: BinOp, x: &Val, y: &Val, t: Ty, checked: bool) -> R<Val> {
        let (bits, signed) = self.int_ty(t)?;
        lift2(x, y, &mut |x, y| {
            let (a, b) = (as_i(x)?, as_i(y)?);
            let r = match op {
                BinOp::Add | BinOp::AddUnchecked => a.checked_add(b),
                BinOp::Sub | BinOp::SubUnchecked => a.checked_sub(b),
                BinOp::Mul | BinOp::MulUnchecked => a.checked_mul(b),
                BinOp::Div => { if b == 0 { return Err(E::Panic("division by zero".into())); } Some(a / b) }
                BinOp::Rem => { if b == 0 { return Err(E::Panic("remainder by zero".into())); } Some(a % b) }
                BinOp::BitXor => Some(a ^ b),
                BinOp::BitAnd => Some(a & b),
                BinOp::BitOr => Some(a | b),
                BinOp::Shl | BinOp::ShlUnchecked => { let s = (b as u128 & (bits as u128 - 1)) as u32; Some(((a as u128) << s) as i128) }
                BinOp::Shr | BinOp::ShrUnchecked => { let s = (b as u128 & (bits as u128 - 1)) as u32; Some(a >> s) }
                _ => return uns("integer operation"),
            };
            let r = match r { Some(r) => r, None => return uns("wide integer arithmetic") };
            let w = if signed { sext(r, bits) } else { (r as u128 & mask(bits)) as i128 };
            if checked { Ok(agg(0, vec![Val::I(w), vbool(w != r)])) } else { Ok(Val::I(w)) }
        })
    }
    fn discr(&mut self, v: &Val, t: Ty) -> R<Val> {
        let ti = self.cx.ty(t);
        let ds = match &ti.k { TyI::Adt { discr, .. } => discr.clone(), _ => vec![] };
        lift1(v, &mut |v| match v {
            Val::A(a) => Ok(Val::I(ds.get(a.variant as usize).copied().unwrap_or(a.variant as i128))),
            Val::Unit => Ok(Val::I(ds.first().copied().unwrap_or(0))),
            _ => uns(format!("discriminant of {}", kind(v))),
        })
    }
    fn raw_ptr(&mut self, d: &Val, m: &Val) -> R<Val> {
        let n = match m { Val::I(n) => *n as u64, Val::Unit => return Ok(d.clone()), Val::Phi(c, _, _) => return Err(E::Decide(*c)), _ => return Ok(Val::Opaque) };
        match d {
            Val::I(_) => { let g = self.cx.globals.len(); self.cx.globals.push(agg(0, vec![Val::Unit; n as usize])); Ok(ptr(Base::Glob(g), vec![Step::V(0, n)])) }
            _ => {
                let p = as_p(d)?;
                let mut q = (*p.path).clone();
                match q.last().copied() {
                    Some(Step::I(k)) => { q.pop(); q.push(Step::V(k, n)); }
                    Some(Step::Z) => {}
                    _ => { q.push(Step::O); q.push(Step::V(0, n)); }
                }
                Ok(ptr(p.base, q))
            }
        }
    }
    fn pointee(&mut self, t: Ty) -> Option<Ty> { let r = self.cx.repr(t); match &self.cx.ty(r).k { TyI::Ptr(p) => Some(*p), _ => None } }
    fn cast_ptr(&mut self, v: &Val, s: Ty, d: Ty) -> R<Val> {
        if let Val::Phi(c, a, b) = v { return Ok(join(*c, &self.cast_ptr(a, s, d)?, &self.cast_ptr(b, s, d)?)); }
        let p = match v { Val::P(p) => p.clone(), Val::I(_) | Val::Opaque | Val::Unit | Val::Uninit => return Ok(v.clone()), _ => return uns(format!("pointer cast of {}", kind(v))) };
        if self.cx.same_repr(s, d) { return Ok(v.clone()); }
        let (s, d) = (self.cx.repr(s), self.cx.repr(d));
        let (si, di) = (self.cx.ty(s), self.cx.ty(d));
        if si.zst || di.zst { return Ok(v.clone()); }
        let mut q = (*p.path).clone();
        match (&si.k, &di.k) {
            (TyI::Slice(e), TyI::Array(f, n)) if self.cx.same_repr(*e, *f) => {
                if let Some(Step::V(k, _)) = q.last().copied() { q.pop(); q.push(Step::V(k, *n)); return Ok(ptr(p.base, q)); }
            }
            (TyI::Slice(e), _) if self.cx.same_repr(*e, d) => {
                if let Some(Step::V(k, _)) = q.last().copied() { q.pop(); push(&mut q, Step::I(k)); return Ok(ptr(p.base, q)); }
            }
            (TyI::Array(e, _), _) if self.cx.same_repr(*e, d) => {
                match q.last().copied() {
                    Some(Step::V(k, _)) => { q.pop(); push(&mut q, Step::I(k)); }
                    Some(Step::O) => { q.pop(); }
                    _ => q.push(Step::I(0)),
                }
                return Ok(ptr(p.base, q));
            }
            (TyI::Array(e, _), TyI::Array(f, n)) if self.cx.same_repr(*e, *f) => { push(&mut q, Step::V(0, *n)); return Ok(ptr(p.base, q)); }
            (_, TyI::Array(f, n)) if self.cx.same_repr(s, *f) => {
                match q.last().copied() {
                    Some(Step::I(k)) => { q.pop(); q.push(Step::V(k, *n)); }
                    _ => { if *n != 1 { return uns("array view of a single object"); } q.push(Step::O); }
                }
                return Ok(ptr(p.base, q));
            }
            _ => {}
        }
        // first field of an aggregate
        uns(format!("pointer cast {:?} -> {:?}", s.kind(), d.kind()))
    }
    fn transmute(&mut self, v: &Val, s: Ty, d: Ty) -> R<Val> {
        if self.cx.same_repr(s, d) {
            if let (Some(a), Some(b)) = (self.pointee(s), self.pointee(d)) { return self.cast_ptr(v, a, b); }
            return Ok(v.clone());
        }
        let (rs, rd) = (self.cx.repr(s), self.cx.repr(d));
        let (a, b) = (self.cx.ty(rs), self.cx.ty(rd));
        match (&a.k, &b.k) {
            (TyI::Float(_), TyI::Int { .. }) => if let Val::F(t) = v { if let Some(x) = as_f64(*t) { return Ok(Val::I(x.to_bits() as i128)); } },
            (TyI::Int { .. }, TyI::Float(64)) => if let Val::I(i) = v { return Ok(Val::F(cf(f64::from_bits(*i as u64)))); },
            (TyI::Int { bits: x, .. }, TyI::Int { bits: y, signed }) if x == y => { let (y, s) = (*y, *signed); return lift1(v, &mut |v| Ok(Val::I(if s { sext(as_i(v)?, y) } else { (as_i(v)? as u128 & mask(y)) as i128 }))); }
            (TyI::Int { .. }, TyI::Bool) => return lift1(v, &mut |v| Ok(vbool(as_i(v)? != 0))),
            (TyI::Bool, TyI::Int { .. }) => return self.bool_to_int(v),
            (TyI::Array(e, 1), _) if self.cx.same_repr(*e, rd) => return load(v, &[Step::I(0)]),
            (_, TyI::Array(e, 1)) if self.cx.same_repr(rs, *e) => return Ok(agg(0, vec![v.clone()])),
            (TyI::Int { .. }, TyI::Adt { kind: rustc_public::ty::AdtKind::Enum, variants, name, .. }) if name.ends_with("Option") && variants.len() == 2 => {
                return lift1(v, &mut |v| match v { Val::I(0) => Ok(agg(0, vec![])), v => Ok(agg(1, vec![v.clone()])) });
            }
            (TyI::Adt { kind: rustc_public::ty::AdtKind::Enum, variants, name, .. }, TyI::Int { .. }) if name.ends_with("Option") && variants.len() == 2 && variants[1].len() == 1 => {
                return lift1(v, &mut |v| match v { Val::A(a) => Ok(if a.variant == 1 { a.f[0].clone() } else { Val::I(0) }), _ => uns("option transmute") });
            }
            (TyI::Adt { kind: rustc_public::ty::AdtKind::Enum, variants, .. }, TyI::Int { .. }) if variants.iter().all(|f| f.is_empty()) => return self.discr(v, rs),
            (TyI::Adt { kind: rustc_public::ty::AdtKind::Enum, variants, name, .. }, TyI::Ptr(_)) if name.ends_with("Option") && variants.len() == 2 => {
                return lift1(v, &mut |v| match v { Val::A(a) => Ok(if a.variant == 1 { a.f[0].clone() } else { Val::I(0) }), _ => uns("option transmute") });
            }
            (TyI::Ptr(_), TyI::Adt { kind: rustc_public::ty::AdtKind::Enum, variants, name, .. }) if name.ends_with("Option") && variants.len() == 2 => {
                return lift1(v, &mut |v| match v { Val::I(0) => Ok(agg(0, vec![])), v => Ok(agg(1, vec![v.clone()])) });
            }
            (TyI::Ptr(_), TyI::Int { .. }) | (TyI::Int { .. }, TyI::Ptr(_)) => if let Val::I(_) = v { return Ok(v.clone()); },
            _ => {}
        }
        uns(format!("transmute {:?} -> {:?}", rs.kind(), rd.kind()))
    }
    fn bool_to_int(&mut self, v: &Val) -> R<Val> {
        let c = as_c(v)?;
        Ok(match cond_const(c) { Some(b) => Val::I(b as i128), None => join_i(c) })
    }
    // ---- rvalues
    fn rvalue(&mut self, st: &State, rv: &Rv) -> R<Val> {
        match rv {
            Rv::Use(o) => self.operand(st, o),
            Rv::Carrier(Some(o)) => self.operand(st, o),
            Rv::Carrier(None) => Ok(Val::Uninit),
            Rv::Repeat(o, n) => { let v = self.operand(st, o)?; Ok(agg(0, vec![v; *n as usize])) }
            Rv::Ref(p) => match self.addr(st, p)? { Loc::Zst => Ok(ptr(Base::Glob(usize::MAX), vec![Step::Z])), Loc::At(b, path) => Ok(ptr(b, path)) },
            Rv::Agg(v, ops) => { let mut r = vec![]; for o in ops { r.push(self.operand(st, o)?); } Ok(agg(*v, r)) }
            Rv::Array(ops) => { let mut r = vec![]; for o in ops { r.push(self.operand(st, o)?); } Ok(agg(0, r)) }
            Rv::RawPtr(d, m) => { let (d, m) = (self.operand(st, d)?, self.operand(st, m)?); self.raw_ptr(&d, &m) }
            Rv::Discr(p) => { let v = self.read(st, p)?; self.discr(&v, p.ty) }
            Rv::Len(p) => match self.addr(st, p)? {
                Loc::At(_, path) => match path.last() { Some(Step::V(_, n)) => Ok(Val::I(*n as i128)), _ => match &self.cx.ty(p.ty).k { TyI::Array(_, n) => Ok(Val::I(*n as i128)), _ => uns("length") } },
                Loc::Zst => match &self.cx.ty(p.ty).k { TyI::Array(_, n) => Ok(Val::I(*n as i128)), _ => uns("length") },
            },
            Rv::Un(op, o, t) => {
                let v = self.operand(st, o)?;
                let ti = self.cx.ty(*t);
                match op {
                    UnOp::Not => match &ti.k {
                        TyI::Bool => Ok(Val::C(not(as_c(&v)?))),
                        TyI::Int { bits, signed } => lift1(&v, &mut |v| { let x = !as_i(v)?; Ok(Val::I(if *signed { sext(x, *bits) } else { (x as u128 & mask(*bits)) as i128 })) }),
                        _ => uns("not"),
                    },
                    UnOp::Neg => match &ti.k {
                        TyI::Float(_) => Ok(Val::F(neg(as_f(&v)?))),
                        TyI::Int { bits, .. } => lift1(&v, &mut |v| Ok(Val::I(sext(-as_i(v)?, *bits)))),
                        _ => uns("negation"),
                    },
                    UnOp::PtrMetadata => lift1(&v, &mut |v| match v {
                        Val::P(p) => Ok(match p.path.last() { Some(Step::V(_, n)) | Some(Step::U(n)) => Val::I(*n as i128), _ => Val::Unit }),
                        Val::I(_) => Ok(Val::Unit),
                        _ => uns("pointer metadata"),
                    }),
                }
            }
            Rv::Bin(op, a, b, t, checked) => { let (x, y) = (self.operand(st, a)?, self.operand(st, b)?); self.binop(st, *op, &x, &y, *t, *checked) }
            Rv::Cast(k, o, s, d) => { let v = self.operand(st, o)?; self.cast(st, k, &v, *s, *d) }
            Rv::Unsupported(s) => uns(s.clone()),
        }
    }
    fn binop(&mut self, st: &State, op: BinOp, x: &Val, y: &Val, t: Ty, checked: bool) -> R<Val> {
        let ti = self.cx.ty(t);
        match &ti.k {
            TyI::Float(_) => {
                let (a, b) = (as_f(x)?, as_f(y)?);
                let single = matches!(ti.k, TyI::Float(32));
                let r = |t: Tm| Val::F(if single { fun("f32", vec![t]) } else { t });
                Ok(match op {
                    BinOp::Add => r(add(a, b)),
                    BinOp::Sub => r(sub(a, b)),
                    BinOp::Mul => r(mul(a, b)),
                    BinOp::Div => r(self.divide(st, a, b)?),
                    BinOp::Rem => r(rem(a, b)),
                    BinOp::Eq => Val::C(eq(a, b)),
                    BinOp::Ne => Val::C(not(eq(a, b))),
                    BinOp::Lt => Val::C(lt(a, b)),
                    BinOp::Le => Val::C(le(a, b)),
                    BinOp::Gt => Val::C(lt(b, a)),
                    BinOp::Ge => Val::C(le(b, a)),
                    _ => return uns("float operation"),
                })
            }
            TyI::Bool => {
                let (a, b) = (as_c(x)?, as_c(y)?);
                Ok(Val::C(match op {
                    BinOp::Eq => cphi(a, b, not(b)),
                    BinOp::Ne | BinOp::BitXor => cphi(a, not(b), b),
                    BinOp::BitAnd => and(a, b),
                    BinOp::BitOr => or(a, b),
                    BinOp::Lt => and(not(a), b),
                    BinOp::Le => or(not(a), b),
                    BinOp::Gt => and(a, not(b)),
                    BinOp::Ge => or(a, not(b)),
                    _ => return uns("boolean operation"),
                }))
            }
            TyI::Int { .. } | TyI::Char => match op {
                BinOp::Eq | BinOp::Ne | BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge | BinOp::Cmp => lift2(x, y, &mut |x, y| {
                    let (a, b) = (as_i(x)?, as_i(y)?);
                    Ok(match op {
                        BinOp::Eq => vbool(a == b),
                        BinOp::Ne => vbool(a != b),
                        BinOp::Lt => vbool(a < b),
                        BinOp::Le => vbool(a <= b),
                        BinOp::Gt => vbool(a > b),
                        BinOp::Ge => vbool(a >= b),
                        _ => agg(if a < b { 0 } else if a == b { 1 } else { 2 }, vec![]),
                    })
                }),
                _ => self.int_op(op, x, y, t, checked),
            },
            TyI::Ptr(_) | TyI::FnPtr => {
                if op == BinOp::Offset { if let Val::I(_) = x { return Ok(x.clone()); } return Ok(ptr_add(&as_p(x)?, as_i(y)? as i64)); }
                lift2(x, y, &mut |x, y| {
                    Ok(match op {
                        BinOp::Eq | BinOp::Ne => {
                            let e = match (x, y) {
                                (Val::P(p), Val::P(q)) => {
                                    if p == q { true } else {
                                        let strip = |p: &Ptr| { let mut q = (*p.path).clone(); if let Some(Step::V(k, _)) = q.last().copied() { q.pop(); q.push(Step::I(k)); } Ptr { base: p.base, path: Rc::new(q) } };
                                        let (a, b) = (split_idx(&strip(p)), split_idx(&strip(q)));
                                        a == b
                                    }
                                }
                                (Val::I(a), Val::I(b)) => a == b,
                                (Val::P(_), Val::I(_)) | (Val::I(_), Val::P(_)) => false,
                                _ => return uns("pointer comparison"),
                            };
                            vbool(e == (op == BinOp::Eq))
                        }
                        BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge => {
                            let d = ptr_diff(&as_p(x)?, &as_p(y)?)?;
                            vbool(match op { BinOp::Lt => d < 0, BinOp::Le => d <= 0, BinOp::Gt => d > 0, _ => d >= 0 })
                        }
                        _ => return uns("pointer operation"),
                    })
                })
            }
            _ => match (x, y) { (Val::Unit, Val::Unit) => Ok(vbool(matches!(op, BinOp::Eq | BinOp::Le | BinOp::Ge))), _ => uns("operation") },
        }
    }
    fn cast(&mut self, st: &State, k: &CastKind, v: &Val, s: Ty, d: Ty) -> R<Val> {
        match k {
            CastKind::IntToInt => {
                let si = self.cx.ty(s);
                let (bits, signed) = self.int_ty(d)?;
                if let TyI::Bool = si.k { return self.bool_to_int(v); }
                lift1(v, &mut |v| { let x = as_i(v)?; Ok(Val::I(if signed { sext(x, bits) } else { (x as u128 & mask(bits)) as i128 })) })
            }
            CastKind::IntToFloat => {
                let single = matches!(self.cx.ty(d).k, TyI::Float(32));
                lift1(v, &mut |v| { let x = ci(as_i(v)?); Ok(Val::F(if single { fun("f32", vec![x]) } else { x })) })
            }
            CastKind::FloatToInt => {
                let (bits, signed) = self.int_ty(d)?;
                let (lo, hi) = if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, mask(bits) as i128) };
                lift1(v, &mut |v| {
                    let t = as_f(v)?;
                    match as_f64(t) {
                        Some(x) => Ok(Val::I(if x.is_nan() { 0 } else { (x as i128).clamp(lo, hi) })),
                        None => {
                            if let T::Phi(c, _, _) = &*get(t) { return Err(E::Decide(*c)); }
                            uns("conversion of an input-dependent number to an integer")
                        }
                    }
                })
            }
            CastKind::FloatToFloat => {
                let (a, b) = (self.cx.ty(s), self.cx.ty(d));
                match (&a.k, &b.k) {
                    (TyI::Float(64), TyI::Float(32)) => Ok(Val::F(fun("f32", vec![as_f(v)?]))),
                    (TyI::Float(_), TyI::Float(64)) => Ok(v.clone()),
                    _ => uns("float width"),
                }
            }
            CastKind::PtrToPtr | CastKind::PointerCoercion(PointerCoercion::ArrayToPointer) | CastKind::PointerCoercion(PointerCoercion::MutToConstPointer) | CastKind::FnPtrToPtr => {
                match (self.pointee(s), self.pointee(d)) { (Some(a), Some(b)) => self.cast_ptr(v, a, b), _ => Ok(v.clone()) }
            }
            CastKind::PointerCoercion(PointerCoercion::Unsize) => {
                if let (Some(a), Some(b)) = (self.pointee(s), self.pointee(d)) {
                    let (ra, rb) = (self.cx.repr(a), self.cx.repr(b));
                    let (ai, bi) = (self.cx.ty(ra), self.cx.ty(rb));
                    if let (TyI::Array(_, n), TyI::Slice(_)) = (&ai.k, &bi.k) {
                        let n = *n;
                        return lift1(v, &mut |v| {
                            let p = match v { Val::P(p) => p, v => return Ok(v.clone()) };
                            let mut q = (*p.path).clone();
                            match q.last().copied() {
                                Some(Step::V(k, _)) => { q.pop(); q.push(Step::V(k, n)); }
                                Some(Step::Z) => { q.push(Step::V(0, n)); }
                                _ => q.push(Step::V(0, n)),
                            }
                            Ok(ptr(p.base, q))
                        });
                    }
                    if let (TyI::Slice(_), TyI::Slice(_)) = (&ai.k, &bi.k) { return Ok(v.clone()); }
                    if self.cx.unsized_tail(rb) == Some(false) {
                        if self.cx.unsized_tail(ra).is_some() { return Ok(v.clone()); }
                        if let Some(n) = self.cx.tail_len(ra) {
                            return lift1(v, &mut |v| {
                                let p = match v { Val::P(p) => p, v => return Ok(v.clone()) };
                                let mut q = (*p.path).clone();
                                q.push(Step::U(n));
                                Ok(ptr(p.base, q))
                            });
                        }
                    }
                }
                Ok(Val::Opaque)
            }
            CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) => {
                if let TyI::FnDef(f, a) = &self.cx.ty(s).k { if let Ok(i) = Instance::resolve_for_fn_ptr(*f, a) { return Ok(Val::Fn(i)); } }
                uns("function pointer")
            }
            CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => {
                if let TyI::Closure(f, a, _) = &self.cx.ty(s).k { if let Ok(i) = Instance::resolve_closure(*f, a, ClosureKind::FnOnce) { return Ok(Val::Fn(i)); } }
                uns("closure pointer")
            }
            CastKind::PointerCoercion(PointerCoercion::UnsafeFnPointer) => Ok(v.clone()),
            CastKind::Transmute | CastKind::BoxDerefTransmute => self.transmute(v, s, d),
            CastKind::Subtype => Ok(v.clone()),
            CastKind::PointerExposeAddress | CastKind::PointerWithExposedProvenance => { let _ = st; if let Val::I(_) = v { Ok(v.clone()) } else { uns("pointer to integer cast") } }
        }
    }
}
fn join_i(c: Cd) -> Val { Val::Phi(c, Rc::new(Val::I(1)), Rc::new(Val::I(0))) }
