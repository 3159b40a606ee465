//! Hash-consed value terms (global value numbering) and conditions, the
//! algebraic normal form of a term, and the partition facts under which
//! normal forms are taken.
use crate::poly::*;
use crate::rat::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Tm(pub u32);
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Cd(pub u32);

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum T {
    Const(u64, Option<Rat>),
    Var(u32),
    Add(Tm, Tm),
    Sub(Tm, Tm),
    Mul(Tm, Tm),
    Div(Tm, Tm),
    Rem(Tm, Tm),
    Neg(Tm),
    Fun(&'static str, Vec<Tm>),
    Phi(Cd, Tm, Tm),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum C {
    B(bool),
    Lt(Tm, Tm),
    Le(Tm, Tm),
    Eq(Tm, Tm),
    Not(Cd),
    And(Cd, Cd),
    Or(Cd, Cd),
    Phi(Cd, Cd, Cd),
}

#[derive(Clone, Debug)]
pub enum AtomDef { Var(u32), Fun(&'static str, Vec<RatFn>), Opaque(Tm) }

#[derive(Default)]
pub struct Arena {
    t: Vec<Rc<T>>,
    tix: HashMap<Rc<T>, Tm>,
    c: Vec<Rc<C>>,
    cix: HashMap<Rc<C>, Cd>,
    vars: Vec<String>,
    vix: HashMap<String, u32>,
    atoms: Vec<AtomDef>,
    var_atom: HashMap<u32, Atom>,
    fun_atoms: HashMap<(&'static str, Vec<RatFn>), Atom>,
    fun_list: HashMap<(&'static str, usize), Vec<Atom>>,
    opq_atoms: HashMap<Tm, Atom>,
    envs: Vec<Rc<Vec<(Atom, RatFn)>>>,
    nf: HashMap<(Tm, u32), Option<Rc<RatFn>>>,
    has_phi: HashMap<Tm, bool>,
    coord_degree: HashMap<Tm, i32>,
}
thread_local! { pub static A: RefCell<Arena> = RefCell::new(Arena::default()); }

pub fn reset_memo() { A.with(|a| { let mut a = a.borrow_mut(); if a.nf.len() > 150_000 { a.nf.clear(); } }); }

pub fn get(t: Tm) -> Rc<T> { A.with(|a| a.borrow().t[t.0 as usize].clone()) }
pub fn getc(c: Cd) -> Rc<C> { A.with(|a| a.borrow().c[c.0 as usize].clone()) }
fn mkraw(t: T) -> Tm {
    A.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(x) = a.tix.get(&t) { return *x; }
        let id = Tm(a.t.len() as u32);
        let r = Rc::new(t);
        a.t.push(r.clone());
        a.tix.insert(r, id);
        id
    })
}
fn mkcraw(c: C) -> Cd {
    A.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(x) = a.cix.get(&c) { return *x; }
        let id = Cd(a.c.len() as u32);
        let r = Rc::new(c);
        a.c.push(r.clone());
        a.cix.insert(r, id);
        id
    })
}
pub fn var(name: &str) -> Tm {
    let v = A.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(v) = a.vix.get(name) { return *v; }
        let v = a.vars.len() as u32;
        a.vars.push(name.to_string());
        a.vix.insert(name.to_string(), v);
        v
    });
    mkraw(T::Var(v))
}
pub fn var_name(v: u32) -> String { A.with(|a| a.borrow().vars[v as usize].clone()) }

pub fn cf(x: f64) -> Tm { mkraw(T::Const(x.to_bits(), Rat::from_f64(x))) }
pub fn cr(r: Rat) -> Tm { mkraw(T::Const(r.to_f64().to_bits(), Some(r))) }
pub fn ci(n: i128) -> Tm { cr(Rat::int(n)) }
fn cfr(x: f64, r: Option<Rat>) -> Tm {
    if !x.is_finite() { return mkraw(T::Const(if x.is_nan() { f64::NAN.to_bits() } else { x.to_bits() }, None)); }
    let r = match r { Some(r) => Some(r), None => Rat::from_f64(x) };
    mkraw(T::Const(x.to_bits(), r))
}
pub fn as_const(t: Tm) -> Option<(f64, Option<Rat>)> {
    match &*get(t) { T::Const(b, r) => Some((f64::from_bits(*b), *r)), _ => None }
}
pub fn as_f64(t: Tm) -> Option<f64> { as_const(t).map(|x| x.0) }
pub fn is_nan(t: Tm) -> bool { as_f64(t).map_or(false, |x| x.is_nan()) }
pub fn is_nonfinite(t: Tm) -> bool { as_f64(t).map_or(false, |x| !x.is_finite()) }
pub fn is_tiny(x: f64) -> bool { x != 0.0 && x.abs() <= 1e-14 }
#[derive(Clone, Copy, PartialEq)]
pub enum Tol { Infinitesimal, Products, Exact, Full }
thread_local! { static TOL: std::cell::Cell<Tol> = const { std::cell::Cell::new(Tol::Infinitesimal) }; }
/// how a tiny constant compared with a quantity that depends on coordinates is read.
/// Exact: it keeps its value, so the result must not change below some absolute size.
/// Products: so for products of coordinates (a tolerance of 1e-16 on a squared
/// length is one of 1e-8 on the length), but infinitesimal for plain coordinates.
/// Full: exact for knots and parameters too.
pub fn set_tol(t: Tol) { TOL.with(|e| e.set(t)); }
fn tiny_for(y: f64, other: Tm) -> bool {
    is_tiny(y) && match TOL.with(|e| e.get()) { Tol::Infinitesimal => true, Tol::Products => coord_degree(other) <= 2, Tol::Exact => coord_degree(other) == 0, Tol::Full => false }
}
thread_local! { static ROUND: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
pub fn set_rounding(on: bool) { ROUND.with(|r| r.set(on)); }
pub fn rounding() -> bool { ROUND.with(|r| r.get()) }
thread_local! { static FINGERS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; static RES: std::cell::RefCell<HashMap<(Tm, u64), Option<u64>>> = std::cell::RefCell::new(HashMap::new()); }
/// compare formulas by their residues first (long curves)
pub fn set_fingers(on: bool) { FINGERS.with(|r| r.set(on)); }
pub fn fingers() -> bool { FINGERS.with(|r| r.get()) }
const PRIME: u64 = (1 << 61) - 1;
fn mulp(a: u64, b: u64) -> u64 { ((a as u128 * b as u128) % PRIME as u128) as u64 }
fn invp(a: u64) -> u64 { let (mut r, mut b, mut e) = (1, a, PRIME - 2); while e > 0 { if e & 1 == 1 { r = mulp(r, b); } b = mulp(b, b); e >>= 1; } r }
/// value of a rational function at a fixed pseudo-random point of the field of 2^61 - 1 elements
pub fn residue(t: Tm, seed: u64) -> Option<u64> {
    if let Some(r) = RES.with(|m| m.borrow().get(&(t, seed)).copied()) { return r; }
    let r = (|| Some(match &*get(t) {
        T::Const(_, r) => { let r = (*r)?; let m = |x: i128| x.rem_euclid(PRIME as i128) as u64; let d = m(r.d); if d == 0 { return None; } mulp(m(r.n), invp(d)) }
        T::Var(v) => {
            let mut x = (*v as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ seed.wrapping_mul(0xd1b5_4a32_d192_ed03);
            for _ in 0..3 { x ^= x >> 30; x = x.wrapping_mul(0xbf58_476d_1ce4_e5b9); x ^= x >> 27; x = x.wrapping_mul(0x94d0_49bb_1331_11eb); x ^= x >> 31; }
            x % PRIME
        }
        T::Add(a, b) => (residue(*a, seed)? + residue(*b, seed)?) % PRIME,
        T::Sub(a, b) => (residue(*a, seed)? + PRIME - residue(*b, seed)?) % PRIME,
        T::Mul(a, b) => mulp(residue(*a, seed)?, residue(*b, seed)?),
        T::Div(a, b) => { let d = residue(*b, seed)?; if d == 0 { return None; } mulp(residue(*a, seed)?, invp(d)) }
        T::Neg(a) => (PRIME - residue(*a, seed)?) % PRIME,
        T::Fun("powi", v) => {
            let k = as_f64(v[1])?;
            let mut x = residue(v[0], seed)?;
            if k.fract() != 0.0 || k.abs() > 1e6 { return None; }
            if k < 0.0 { if x == 0 { return None; } x = invp(x); }
            (0..k.abs() as u32).fold(1, |r, _| mulp(r, x))
        }
        _ => return None,
    }))();
    RES.with(|m| m.borrow_mut().insert((t, seed), r));
    r
}
/// value of a term in the field of 2^61 - 1 elements with some variables replaced; selections and
/// functions that are not rational count as unknowns of their own
pub struct Residues<'a> { pub seed: u64, pub put: &'a [(Tm, u64)], pub vars: &'a dyn Fn(Tm) -> bool, pub memo: HashMap<Tm, Option<u64>>, pub takes: HashMap<Tm, bool>, pub deps: HashMap<Tm, bool> }
impl Residues<'_> {
    fn takes(&mut self, t: Tm) -> bool {
        if let Some(x) = self.takes.get(&t) { return *x; }
        let r = match &*get(t) {
            T::Const(..) => false,
            T::Var(_) => (self.vars)(t) || self.put.iter().any(|p| p.0 == t),
            T::Add(a, b) | T::Sub(a, b) | T::Mul(a, b) | T::Div(a, b) | T::Rem(a, b) => self.takes(*a) || self.takes(*b),
            T::Neg(a) => self.takes(*a),
            T::Fun(_, v) => v.iter().any(|x| self.takes(*x)),
            T::Phi(_, a, b) => self.takes(*a) || self.takes(*b),
        };
        self.takes.insert(t, r);
        r
    }
    /// some unknown in t takes its value (not just its choice) from the replaced variables or from `vars`
    pub fn open(&mut self, t: Tm) -> bool {
        if let Some(x) = self.deps.get(&t) { return *x; }
        let r = match &*get(t) {
            T::Const(..) | T::Var(_) => false,
            T::Add(a, b) | T::Sub(a, b) | T::Mul(a, b) | T::Div(a, b) => self.open(*a) || self.open(*b),
            T::Neg(a) => self.open(*a),
            T::Fun("mul_add" | "powi", v) => v.iter().any(|x| self.open(*x)),
            _ => self.takes(t),
        };
        self.deps.insert(t, r);
        r
    }
    pub fn at(&mut self, t: Tm) -> Option<u64> {
        if let Some(x) = self.memo.get(&t) { return *x; }
        let r = (|| Some(match &*get(t) {
            T::Const(..) => residue(t, self.seed)?,
            T::Var(_) => match self.put.iter().find(|p| p.0 == t) { Some(p) => p.1, None => residue(t, self.seed)? },
            T::Add(a, b) => (self.at(*a)? + self.at(*b)?) % PRIME,
            T::Sub(a, b) => (self.at(*a)? + PRIME - self.at(*b)?) % PRIME,
            T::Mul(a, b) => mulp(self.at(*a)?, self.at(*b)?),
            T::Div(a, b) => { let d = self.at(*b)?; if d == 0 { return None; } mulp(self.at(*a)?, invp(d)) }
            T::Neg(a) => (PRIME - self.at(*a)?) % PRIME,
            T::Fun("mul_add", v) => (mulp(self.at(v[0])?, self.at(v[1])?) + self.at(v[2])?) % PRIME,
            T::Fun("powi", v) if as_f64(v[1]).is_some_and(|k| k.fract() == 0.0 && (0.0..=64.0).contains(&k)) => { let x = self.at(v[0])?; (0..as_f64(v[1])? as u32).fold(1, |r, _| mulp(r, x)) }
            _ => { let mut x = (t.0 as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ self.seed.wrapping_mul(0xd1b5_4a32_d192_ed03); for _ in 0..3 { x ^= x >> 30; x = x.wrapping_mul(0xbf58_476d_1ce4_e5b9); x ^= x >> 27; } x % PRIME }
        }))();
        self.memo.insert(t, r);
        r
    }
}
pub fn add_m(a: u64, b: u64) -> u64 { (a + b) % PRIME }
pub fn sub_m(a: u64, b: u64) -> u64 { (a + PRIME - b) % PRIME }
pub fn mul_m(a: u64, b: u64) -> u64 { mulp(a, b) }
pub fn div_m(a: u64, b: u64) -> Option<u64> { if b == 0 { None } else { Some(mulp(a, invp(b))) } }
/// degree of t in the coordinates of points, in halves (a square root halves it)
pub fn coord_degree(t: Tm) -> i32 {
    if let Some(b) = A.with(|a| a.borrow().coord_degree.get(&t).copied()) { return b; }
    let d = coord_degree;
    let r = match &*get(t) {
        T::Const(..) => 0,
        T::Var(v) => if matches!(var_name(*v).as_bytes()[0], b'P' | b'Q' | b'W' | b'q' | b'w') { 2 } else { 0 },
        T::Add(x, y) | T::Sub(x, y) | T::Rem(x, y) => d(*x).max(d(*y)),
        T::Mul(x, y) => d(*x) + d(*y),
        T::Div(x, y) => { let (a, b) = (d(*x), d(*y)); if a == 0 && b == 0 { 0 } else { (a - b).max(1) } }
        T::Neg(x) => d(*x),
        T::Fun("sqrt", v) => { let a = d(v[0]); if a == 0 { 0 } else { (a / 2).max(1) } }
        T::Fun("powi", v) => d(v[0]) * as_f64(v[1]).map_or(1, |k| k.abs().max(1.0) as i32),
        T::Fun("mul_add", v) => (d(v[0]) + d(v[1])).max(d(v[2])),
        T::Fun(_, v) => v.iter().map(|x| d(*x)).max().unwrap_or(0),
        T::Phi(_, x, y) => d(*x).max(d(*y)),
    };
    A.with(|a| a.borrow_mut().coord_degree.insert(t, r));
    r
}
pub fn is_huge(x: f64) -> bool { x.abs() >= 1e290 }

fn fold2(a: Tm, b: Tm, f: impl Fn(f64, f64) -> f64, g: impl Fn(Rat, Rat) -> Option<Rat>) -> Option<Tm> {
    let (x, rx) = as_const(a)?;
    let (y, ry) = as_const(b)?;
    let r = match (rx, ry) {
        (Some(p), Some(q)) => { let o = overflowed(); let r = g(p, q); if !o && overflowed() { clear_overflow(); None } else { r } }
        _ => None,
    };
    Some(cfr(f(x, y), r))
}
fn nonfin(a: Tm, b: Tm) -> Option<Tm> {
    // NaN absorbs everything
    if is_nan(a) || is_nan(b) { return Some(cfr(f64::NAN, None)); }
    None
}
pub fn add(a: Tm, b: Tm) -> Tm {
    if let Some(t) = fold2(a, b, |x, y| x + y, |x, y| Some(x.add(y))) { return t; }
    if let Some(t) = nonfin(a, b) { return t; }
    if is_nonfinite(a) { return a; }
    if is_nonfinite(b) { return b; }
    mkraw(T::Add(a, b))
}
pub fn sub(a: Tm, b: Tm) -> Tm {
    if let Some(t) = fold2(a, b, |x, y| x - y, |x, y| Some(x.sub(y))) { return t; }
    if let Some(t) = nonfin(a, b) { return t; }
    if is_nonfinite(a) { return a; }
    if is_nonfinite(b) { return neg(b); }
    mkraw(T::Sub(a, b))
}
pub fn mul(a: Tm, b: Tm) -> Tm {
    if let Some(t) = fold2(a, b, |x, y| x * y, |x, y| Some(x.mul(y))) { return t; }
    if let Some(t) = nonfin(a, b) { return t; }
    mkraw(T::Mul(a, b))
}
pub fn div(a: Tm, b: Tm) -> Tm {
    if let Some(t) = fold2(a, b, |x, y| x / y, |x, y| if y.is_zero() { None } else { Some(x.div(y)) }) { return t; }
    if let Some(t) = nonfin(a, b) { return t; }
    if is_nonfinite(b) { return cf(0.0); }
    mkraw(T::Div(a, b))
}
pub fn rem(a: Tm, b: Tm) -> Tm {
    if let Some(t) = fold2(a, b, |x, y| x % y, |_, _| None) { return t; }
    mkraw(T::Rem(a, b))
}
pub fn neg(a: Tm) -> Tm {
    if let Some((x, r)) = as_const(a) { return cfr(-x, r.map(|r| r.neg())); }
    mkraw(T::Neg(a))
}
pub fn fun(f: &'static str, args: Vec<Tm>) -> Tm {
    if args.iter().any(|a| is_nan(*a)) && f != "min" && f != "max" { return cfr(f64::NAN, None); }
    let cs: Option<Vec<(f64, Option<Rat>)>> = args.iter().map(|a| as_const(*a)).collect();
    if let Some(c) = cs {
        let x = c[0].0;
        let y = c.get(1).map(|v| v.0).unwrap_or(0.0);
        match f {
            "abs" => return cfr(x.abs(), c[0].1.map(|r| r.abs())),
            "sqrt" => return cfr(x.sqrt(), c[0].1.and_then(rat_sqrt)),
            "min" => return if x.is_nan() { args[1] } else if y.is_nan() { args[0] } else if x <= y { args[0] } else { args[1] },
            "max" => return if x.is_nan() { args[1] } else if y.is_nan() { args[0] } else if x >= y { args[0] } else { args[1] },
            "floor" => return cfr(x.floor(), None),
            "ceil" => return cfr(x.ceil(), None),
            "round" => return cfr(x.round(), None),
            "trunc" => return cfr(x.trunc(), None),
            "signum" => return cfr(x.signum(), None),
            "powi" => return cfr(x.powi(y as i32), c[0].1.and_then(|r| if y >= 0.0 && y < 64.0 { let o = overflowed(); let v = r.powi(y as u32); if overflowed() && !o { clear_overflow(); None } else { Some(v) } } else { None })),
            "powf" => return cfr(x.powf(y), None),
            "sin" => return cfr(x.sin(), None),
            "cos" => return cfr(x.cos(), None),
            "acos" => return cfr(x.acos(), None),
            "exp" => return cfr(x.exp(), None),
            "ln" => return cfr(x.ln(), None),
            "hypot" => return cfr(x.hypot(y), None),
            "cbrt" => return cfr(x.cbrt(), None),
            "signbit" => return cfr(if x.is_sign_negative() { -1.0 } else { 1.0 }, None),
            "f32" => return cfr((x as f32) as f64, if (x as f32) as f64 == x { c[0].1 } else { None }),
            "mul_add" => { let r = (|| Some(c[0].1?.mul(c[1].1?).add(c[2].1?)))(); return cfr(x.mul_add(y, c[2].0), r); }
            "recip" => return div(cf(1.0), args[0]),
            _ => {}
        }
    }
    match f {
        "min" | "max" => {
            if is_nan(args[0]) { return args[1]; }
            if is_nan(args[1]) { return args[0]; }
            for k in 0..2 {
                if let Some(x) = as_f64(args[k]) {
                    if is_huge(x) {
                        let keep_other = (f == "min") == (x > 0.0);
                        return if keep_other { args[1 - k] } else { args[k] };
                    }
                }
            }
            if args[0] == args[1] { return args[0]; }
        }
        "mul_add" => return add(mul(args[0], args[1]), args[2]),
        "recip" => return div(cf(1.0), args[0]),
        _ => {}
    }
    mkraw(T::Fun(f, args))
}
pub fn phi(c: Cd, a: Tm, b: Tm) -> Tm {
    if a == b { return a; }
    match &*getc(c) {
        C::B(true) => return a,
        C::B(false) => return b,
        C::Not(d) => return phi(*d, b, a),
        C::Lt(x, y) | C::Le(x, y) => {
            if *x == a && *y == b { return fun("min", vec![a, b]); }
            if *x == b && *y == a { return fun("max", vec![a, b]); }
            // the smaller or larger of the two values just compared
            let pick = |t: Tm, first: bool| match &*get(t) {
                T::Fun("min", v) if v.contains(x) && v.contains(y) => if first { *x } else { *y },
                T::Fun("max", v) if v.contains(x) && v.contains(y) => if first { *y } else { *x },
                _ => t,
            };
            let (p, q) = (pick(a, true), pick(b, false));
            if p != a || q != b { return phi(c, p, q); }
        }
        _ => {}
    }
    // nested selections of the same two values by one comparison in two steps
    if let T::Phi(d, x, y) = &*get(a) {
        if *x == b { if let Some(e) = both(c, not(*d)) { return phi(e, *y, b); } }
        if *y == b { if let Some(e) = both(c, *d) { return phi(e, *x, b); } }
    }
    if let T::Phi(d, x, y) = &*get(b) {
        if *x == a { if let Some(e) = both(not(c), not(*d)) { return phi(e, *y, a); } }
        if *y == a { if let Some(e) = both(not(c), *d) { return phi(e, *x, a); } }
    }
    mkraw(T::Phi(c, a, b))
}
pub fn rat_sqrt(r: Rat) -> Option<Rat> {
    fn isq(n: i128) -> Option<i128> {
        if n < 0 { return None; }
        let mut x = (n as f64).sqrt() as i128;
        while x * x > n { x -= 1; }
        while (x + 1) * (x + 1) <= n { x += 1; }
        if x * x == n { Some(x) } else { None }
    }
    Some(Rat { n: isq(r.n)?, d: isq(r.d)? })
}

// ---- selections among numbers
/// a term that selects among numbers, as a tree of selections with numbers at the leaves
fn choice(t: Tm) -> Option<Tm> {
    thread_local! { static MEMO: RefCell<HashMap<Tm, Option<Tm>>> = RefCell::new(HashMap::new()); }
    if let Some(r) = MEMO.with(|m| m.borrow().get(&t).copied()) { return r; }
    let mut memo = HashMap::new();
    let r = match &*get(t) {
        T::Const(..) => Some(t),
        T::Var(_) => None,
        T::Add(a, b) => choice(*a).zip(choice(*b)).and_then(|(a, b)| over(&add, a, b, &mut memo)),
        T::Sub(a, b) => choice(*a).zip(choice(*b)).and_then(|(a, b)| over(&sub, a, b, &mut memo)),
        T::Mul(a, b) => choice(*a).zip(choice(*b)).and_then(|(a, b)| over(&mul, a, b, &mut memo)),
        T::Div(a, b) => choice(*a).zip(choice(*b)).and_then(|(a, b)| over(&div, a, b, &mut memo)),
        T::Neg(a) => choice(*a).and_then(|a| over(&sub, ci(0), a, &mut memo)),
        T::Fun(f, v) if v.len() == 2 => { let f = *f; choice(v[0]).zip(choice(v[1])).and_then(|(a, b)| over(&|x, y| fun(f, vec![x, y]), a, b, &mut memo)) }
        T::Phi(c, a, b) => choice(*a).zip(choice(*b)).map(|(a, b)| select(*c, a, b)),
        _ => None,
    };
    MEMO.with(|m| { let mut m = m.borrow_mut(); if m.len() > 300_000 { m.clear(); } m.insert(t, r); });
    r
}
fn select(c: Cd, a: Tm, b: Tm) -> Tm { if a == b { a } else { mkraw(T::Phi(c, a, b)) } }
/// the two sides of a selection under condition c
fn side(t: Tm, c: Cd, v: bool) -> Tm { if let T::Phi(d, a, b) = &*get(t) { if *d == c { return if v { *a } else { *b }; } } t }
fn over(f: &dyn Fn(Tm, Tm) -> Tm, a: Tm, b: Tm, memo: &mut HashMap<(Tm, Tm), Tm>) -> Option<Tm> {
    if let Some(r) = memo.get(&(a, b)) { return Some(*r); }
    if memo.len() > 4000 { return None; }
    let c = match (&*get(a), &*get(b)) { (T::Phi(c, _, _), _) | (_, T::Phi(c, _, _)) => Some(*c), _ => None };
    let r = match c {
        None => { let r = f(a, b); if as_const(r).is_none() { return None; } r }
        Some(c) => { let x = over(f, side(a, c, true), side(b, c, true), memo)?; let y = over(f, side(a, c, false), side(b, c, false), memo)?; select(c, x, y) }
    };
    memo.insert((a, b), r);
    Some(r)
}
/// a comparison between selections among numbers that comes out the same for every selection
pub fn same_for_all(c: Cd) -> Option<bool> {
    thread_local! { static MEMO: RefCell<HashMap<Cd, Option<bool>>> = RefCell::new(HashMap::new()); }
    if let Some(r) = MEMO.with(|m| m.borrow().get(&c).copied()) { return r; }
    let f: Option<(Tm, Tm, fn(f64, f64) -> bool)> = match &*getc(c) { C::Lt(a, b) => Some((*a, *b, |x, y| x < y)), C::Le(a, b) => Some((*a, *b, |x, y| x <= y)), C::Eq(a, b) => Some((*a, *b, |x, y| x == y)), _ => None };
    let r = f.and_then(|(a, b, f)| {
        let d = over(&|x, y| match (as_f64(x), as_f64(y)) { (Some(x), Some(y)) => ci(f(x, y) as i128), _ => x }, choice(a)?, choice(b)?, &mut HashMap::new())?;
        as_f64(d).map(|x| x == 1.0)
    });
    MEMO.with(|m| { let mut m = m.borrow_mut(); if m.len() > 300_000 { m.clear(); } m.insert(c, r); });
    r
}

// ---- conditions
pub fn ctrue() -> Cd { mkcraw(C::B(true)) }
pub fn cfalse() -> Cd { mkcraw(C::B(false)) }
pub fn cb(b: bool) -> Cd { mkcraw(C::B(b)) }
pub fn cond_const(c: Cd) -> Option<bool> { if let C::B(b) = &*getc(c) { Some(*b) } else { None } }
fn cmp_fold(a: Tm, b: Tm) -> Option<(f64, f64)> {
    let (x, _) = as_const(a)?;
    let (y, _) = as_const(b)?;
    Some((x, y))
}
pub fn lt(a: Tm, b: Tm) -> Cd {
    if let Some((x, y)) = cmp_fold(a, b) { return cb(x < y); }
    if is_nan(a) || is_nan(b) || a == b { return cb(false); }
    mkcraw(C::Lt(a, b))
}
pub fn le(a: Tm, b: Tm) -> Cd {
    if let Some((x, y)) = cmp_fold(a, b) { return cb(x <= y); }
    if is_nan(a) || is_nan(b) { return cb(false); }
    if a == b { return cb(true); }
    mkcraw(C::Le(a, b))
}
pub fn eq(a: Tm, b: Tm) -> Cd {
    if let Some((x, y)) = cmp_fold(a, b) { return cb(x == y); }
    if is_nan(a) || is_nan(b) { return cb(false); }
    if a == b { return cb(true); }
    let (a, b) = if a.0 <= b.0 { (a, b) } else { (b, a) };
    mkcraw(C::Eq(a, b))
}
pub fn not(c: Cd) -> Cd {
    match &*getc(c) { C::B(b) => cb(!b), C::Not(d) => *d, _ => mkcraw(C::Not(c)) }
}
pub fn and(a: Cd, b: Cd) -> Cd {
    match (cond_const(a), cond_const(b)) {
        (Some(false), _) | (_, Some(false)) => cfalse(),
        (Some(true), _) => b,
        (_, Some(true)) => a,
        _ => if a == b { a } else { strict(a, b).or_else(|| strict(b, a)).unwrap_or_else(|| mkcraw(C::And(a, b))) },
    }
}
/// x <= y and not y <= x: x < y (also with a NaN on either side)
fn strict(a: Cd, b: Cd) -> Option<Cd> {
    match (&*getc(a), &*getc(b)) {
        (C::Le(x, y), C::Not(d)) => match &*getc(*d) { C::Le(u, v) if u == y && v == x => Some(mkcraw(C::Lt(*x, *y))), _ => None },
        _ => None,
    }
}
fn both(a: Cd, b: Cd) -> Option<Cd> { strict(a, b).or_else(|| strict(b, a)) }
pub fn or(a: Cd, b: Cd) -> Cd {
    match (cond_const(a), cond_const(b)) {
        (Some(true), _) | (_, Some(true)) => ctrue(),
        (Some(false), _) => b,
        (_, Some(false)) => a,
        // y < x or unordered fails exactly when y < x: (x <= y) or not (y <= x) is not (y < x)
        _ => if a == b { a } else { both(not(a), not(b)).map(not).unwrap_or_else(|| mkcraw(C::Or(a, b))) },
    }
}
pub fn cphi(c: Cd, a: Cd, b: Cd) -> Cd {
    if a == b { return a; }
    if let Some(x) = cond_const(c) { return if x { a } else { b }; }
    match (cond_const(a), cond_const(b)) {
        (Some(true), Some(false)) => return c,
        (Some(false), Some(true)) => return not(c),
        (Some(true), None) => return or(c, b),
        (Some(false), None) => return and(not(c), b),
        (None, Some(true)) => return or(not(c), a),
        (None, Some(false)) => return and(c, a),
        _ => {}
    }
    mkcraw(C::Phi(c, a, b))
}

// ---- printing
pub fn show(t: Tm) -> String { show_d(t, 6) }
pub fn show_d(t: Tm, d: usize) -> String {
    if d == 0 { return "...".into(); }
    match &*get(t) {
        T::Const(b, r) => match r { Some(r) if r.d < 10_000_000 => r.to_string(), _ => format!("{:e}", f64::from_bits(*b)) },
        T::Var(v) => var_name(*v),
        T::Add(a, b) => format!("({} + {})", show_d(*a, d - 1), show_d(*b, d - 1)),
        T::Sub(a, b) => format!("({} - {})", show_d(*a, d - 1), show_d(*b, d - 1)),
        T::Mul(a, b) => format!("{}*{}", show_d(*a, d - 1), show_d(*b, d - 1)),
        T::Div(a, b) => format!("{}/{}", show_d(*a, d - 1), show_d(*b, d - 1)),
        T::Rem(a, b) => format!("{}%{}", show_d(*a, d - 1), show_d(*b, d - 1)),
        T::Neg(a) => format!("-{}", show_d(*a, d - 1)),
        T::Fun(f, a) => format!("{}({})", f, a.iter().map(|x| show_d(*x, d - 1)).collect::<Vec<_>>().join(", ")),
        T::Phi(c, a, b) => format!("[{} ? {} : {}]", showc_d(*c, d - 1), show_d(*a, d - 1), show_d(*b, d - 1)),
    }
}
pub fn showc(c: Cd) -> String { showc_d(c, 6) }
pub fn showc_d(c: Cd, d: usize) -> String {
    if d == 0 { return "...".into(); }
    match &*getc(c) {
        C::B(b) => b.to_string(),
        C::Lt(a, b) => format!("{} < {}", show_d(*a, d - 1), show_d(*b, d - 1)),
        C::Le(a, b) => format!("{} <= {}", show_d(*a, d - 1), show_d(*b, d - 1)),
        C::Eq(a, b) => format!("{} == {}", show_d(*a, d - 1), show_d(*b, d - 1)),
        C::Not(a) => format!("!({})", showc_d(*a, d - 1)),
        C::And(a, b) => format!("({} && {})", showc_d(*a, d - 1), showc_d(*b, d - 1)),
        C::Or(a, b) => format!("({} || {})", showc_d(*a, d - 1), showc_d(*b, d - 1)),
        C::Phi(c, a, b) => format!("({} ? {} : {})", showc_d(*c, d - 1), showc_d(*a, d - 1), showc_d(*b, d - 1)),
    }
}
pub fn atom_name(a: Atom) -> String {
    let d = A.with(|x| x.borrow().atoms[a as usize].clone());
    match d {
        AtomDef::Var(v) => var_name(v),
        AtomDef::Fun(f, args) => format!("{}({})", f, args.iter().map(|r| show_rf(r)).collect::<Vec<_>>().join(", ")),
        AtomDef::Opaque(t) => show_d(t, 4),
    }
}
pub fn atom_def(a: Atom) -> AtomDef { A.with(|x| x.borrow().atoms[a as usize].clone()) }
pub fn show_rf(r: &RatFn) -> String {
    let n = show_poly(&r.num, &atom_name);
    if r.den.is_empty() { return n; }
    let d: Vec<String> = r.den.iter().map(|(f, e)| if *e == 1 { format!("({})", show_poly(f, &atom_name)) } else { format!("({})^{}", show_poly(f, &atom_name), e) }).collect();
    format!("({}) / {}", n, d.join(""))
}

// ---- atoms
pub fn var_atom(v: u32) -> Atom {
    A.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(x) = a.var_atom.get(&v) { return *x; }
        let id = a.atoms.len() as Atom;
        a.atoms.push(AtomDef::Var(v));
        a.var_atom.insert(v, id);
        id
    })
}
pub fn atom_of(t: Tm) -> Option<Atom> { if let T::Var(v) = &*get(t) { Some(var_atom(*v)) } else { None } }
fn fun_atom(f: &'static str, args: Vec<RatFn>) -> Atom {
    let key = (f, args);
    let (found, cands) = A.with(|a| {
        let a = a.borrow();
        if let Some(x) = a.fun_atoms.get(&key) { return (Some(*x), vec![]); }
        if key.1.iter().all(|r| r.den.is_empty()) { return (None, vec![]); }
        (None, a.fun_list.get(&(f, key.1.len())).cloned().unwrap_or_default())
    });
    if let Some(x) = found { return x; }
    for c in cands {
        if let AtomDef::Fun(_, args2) = atom_def(c) {
            if key.1.iter().zip(&args2).all(|(x, y)| x.eq(y)) && !overflowed() {
                A.with(|a| { a.borrow_mut().fun_atoms.insert(key, c); });
                return c;
            }
        }
    }
    A.with(|a| {
        let mut a = a.borrow_mut();
        let id = a.atoms.len() as Atom;
        a.atoms.push(AtomDef::Fun(f, key.1.clone()));
        a.fun_list.entry((f, key.1.len())).or_default().push(id);
        a.fun_atoms.insert(key, id);
        id
    })
}
fn opaque_atom(t: Tm) -> Atom {
    A.with(|a| {
        let mut a = a.borrow_mut();
        if let Some(x) = a.opq_atoms.get(&t) { return *x; }
        let id = a.atoms.len() as Atom;
        a.atoms.push(AtomDef::Opaque(t));
        a.opq_atoms.insert(t, id);
        id
    })
}

// ---- environments: substitutions atom := rational function
pub type Env = u32;
pub fn env_get(e: Env) -> Rc<Vec<(Atom, RatFn)>> {
    A.with(|a| {
        let mut a = a.borrow_mut();
        if a.envs.is_empty() { a.envs.push(Rc::new(vec![])); }
        a.envs[e as usize].clone()
    })
}
pub fn env_intern(v: Vec<(Atom, RatFn)>) -> Env {
    env_get(0);
    A.with(|a| {
        let mut a = a.borrow_mut();
        for (i, e) in a.envs.iter().enumerate() { if **e == v { return i as Env; } }
        a.envs.push(Rc::new(v));
        (a.envs.len() - 1) as Env
    })
}
/// add substitution atom := r (r must not mention atom)
pub fn env_extend(e: Env, atom: Atom, r: RatFn) -> Option<Env> {
    let old = env_get(e);
    let mut v = vec![];
    for (a, x) in old.iter() {
        let y = if x.has(atom) { x.subst(&|k| if k == atom { Some(r.clone()) } else { None })? } else { x.clone() };
        v.push((*a, y));
    }
    v.push((atom, r));
    v.sort();
    Some(env_intern(v))
}
fn env_lookup(e: Env, a: Atom) -> RatFn {
    if e != 0 {
        for (k, r) in env_get(e).iter() { if *k == a { return r.clone(); } }
    }
    RatFn::atom(a)
}

// ---- normal form
pub fn nf(t: Tm, e: Env) -> Option<Rc<RatFn>> {
    if let Some(r) = A.with(|a| a.borrow().nf.get(&(t, e)).cloned()) { return r; }
    let was = overflowed();
    clear_overflow();
    let r = nf0(t, e);
    let r = if overflowed() { None } else { r.map(Rc::new) };
    clear_overflow();
    if was { let _ = Rat::new(1, 0); }
    A.with(|a| { a.borrow_mut().nf.insert((t, e), r.clone()); });
    r
}
fn nf0(t: Tm, e: Env) -> Option<RatFn> {
    let n = |x: Tm| nf(x, e);
    Some(match &*get(t) {
        T::Const(b, r) => match r {
            Some(r) => RatFn::constant(*r),
            None => { let _ = b; RatFn::atom(opaque_atom(t)) }
        },
        T::Var(v) => env_lookup(e, var_atom(*v)),
        T::Add(a, b) => n(*a)?.add(&*n(*b)?),
        T::Sub(a, b) => n(*a)?.sub(&*n(*b)?),
        T::Mul(a, b) => n(*a)?.mul(&*n(*b)?),
        T::Div(a, b) => { let d = n(*b)?; if d.is_zero() { RatFn::atom(opaque_atom(cf(f64::NAN))) } else { n(*a)?.div(&*d)? } }
        T::Neg(a) => n(*a)?.neg(),
        T::Rem(a, b) => { let v = vec![(*n(*a)?).clone(), (*n(*b)?).clone()]; env_lookup(e, fun_atom("rem", v)) }
        T::Fun(f, args) => {
            let f = *f;
            match f {
                "powi" => {
                    let k = as_f64(args[1])?;
                    let x = n(args[0])?;
                    if k >= 0.0 { x.pow(k as u32) } else { x.pow((-k) as u32).inv()? }
                }
                "powf" if as_f64(args[1]) == Some(2.0) => n(args[0])?.pow(2),
                "powf" if as_f64(args[1]) == Some(3.0) => n(args[0])?.pow(3),
                "powf" if as_f64(args[1]) == Some(0.5) => sqrt_nf((*n(args[0])?).clone(), e)?,
                "sqrt" => sqrt_nf((*n(args[0])?).clone(), e)?,
                "abs" => {
                    let x = n(args[0])?;
                    if let Some(c) = x.as_const() { RatFn::constant(c.abs()) } else {
                        // |x|: canonical up to sign
                        let (c, _) = x.num.primitive();
                        let y = if c.sign() < 0 { x.neg() } else { (*x).clone() };
                        env_lookup(e, fun_atom("abs", vec![y]))
                    }
                }
                "min" | "max" => {
                    let x = n(args[0])?; let y = n(args[1])?;
                    if x.eq(&y) { (*x).clone() } else if let (Some(p), Some(q)) = (x.as_const(), y.as_const()) {
                        RatFn::constant(if f == "min" { p.min(q) } else { p.max(q) })
                    } else {
                        let mut v = vec![(*x).clone(), (*y).clone()];
                        v.sort();
                        env_lookup(e, fun_atom(f, v))
                    }
                }
                "hypot" => {
                    let s = n(args[0])?.pow(2).add(&n(args[1])?.pow(2));
                    sqrt_nf(s, e)?
                }
                "signum" => {
                    let x = n(args[0])?;
                    env_lookup(e, fun_atom("signum", vec![(*x).clone()]))
                }
                _ => {
                    let mut v = vec![];
                    for a in args { v.push((*n(*a)?).clone()); }
                    env_lookup(e, fun_atom(f, v))
                }
            }
        }
        T::Phi(_, _, _) => env_lookup(e, opaque_atom(t)),
    })
}
fn sqrt_nf(x: RatFn, e: Env) -> Option<RatFn> {
    if let Some(c) = x.as_const() {
        if let Some(r) = rat_sqrt(c) { return Some(RatFn::constant(r)); }
    }
    // pull the square part out of the rational content
    let (c, _) = x.num.primitive();
    let mut k = Rat::ONE;
    if !c.is_zero() {
        let c = c.abs();
        fn sqpart(mut n: i128) -> i128 {
            let mut s = 1; let mut p = 2;
            while p * p <= n && p < 2000 { while n % (p * p) == 0 { n /= p * p; s *= p; } p += 1; }
            s
        }
        k = Rat::new(sqpart(c.n), 1);
        // make denominators square-free part go inside: sqrt(n/d) = sqrt(n*d)/d
        let d = c.d;
        let s = sqpart(d);
        k = k.div(Rat::int(s));
    }
    let y = x.scale(k.mul(k).inv());
    if let Some(c) = y.as_const() { if let Some(r) = rat_sqrt(c) { return Some(RatFn::constant(r.mul(k))); } }
    let a = fun_atom("sqrt", vec![y.clone()]);
    register_sqrt(a, y);
    Some(env_lookup(e, a).scale(k))
}

// ---- facts
pub const NEG: u8 = 1;
pub const ZERO: u8 = 2;
pub const POS: u8 = 4;
pub const ANY: u8 = 7;
pub fn flip(m: u8) -> u8 { (m & ZERO) | if m & NEG != 0 { POS } else { 0 } | if m & POS != 0 { NEG } else { 0 } }
fn mulmask(a: u8, b: u8) -> u8 {
    let mut r = 0;
    for x in [NEG, ZERO, POS] { if a & x != 0 { for y in [NEG, ZERO, POS] { if b & y != 0 {
        r |= if x == ZERO || y == ZERO { ZERO } else if x == y { POS } else { NEG };
    } } } }
    r
}
fn addmask(a: u8, b: u8) -> u8 {
    let mut r = 0;
    for x in [NEG, ZERO, POS] { if a & x != 0 { for y in [NEG, ZERO, POS] { if b & y != 0 {
        r |= if x == ZERO { y } else if y == ZERO { x } else if x == y { x } else { ANY };
    } } } }
    r
}

#[derive(Clone, Debug)]
pub struct FactsI {
    pub env: Env,
    pub raw: Vec<(Tm, Tm, u8)>,
    pub signs: Vec<(RatFn, Rc<Poly>, u8)>,
    pub contradiction: bool,
    pub log: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct Facts(pub Rc<FactsI>);

impl Facts {
    pub fn new() -> Facts { env_get(0); Facts(Rc::new(FactsI { env: 0, raw: vec![], signs: vec![], contradiction: false, log: vec![] })) }
    pub fn env(&self) -> Env { self.0.env }
    pub fn nf(&self, t: Tm) -> Option<Rc<RatFn>> { nf(t, self.0.env) }

    fn key(r: &RatFn) -> (Rc<Poly>, i32) {
        // sign(num/den) = sign(num * prod odd den factors)
        let mut p = r.num.clone();
        for (f, e) in &r.den { if e % 2 == 1 { p = p.mul(f); } }
        let rr = reduce_roots(RatFn::poly(p));
        if !rr.den.is_empty() && !overflowed() { return Facts::key(&rr); }
        let (c, q) = rr.num.primitive();
        (Rc::new(q), c.sign())
    }

    /// possible signs of a polynomial under the facts
    fn poly_sign(&self, p: &Poly, depth: u32) -> u8 {
        if let Some(c) = p.as_const() { return match c.sign() { 0 => ZERO, 1 => POS, _ => NEG }; }
        let (c, q) = p.primitive();
        let mut m = self.prim_sign(&q, depth);
        if c.sign() < 0 { m = flip(m); }
        m
    }
    fn atom_sign(&self, a: Atom, depth: u32) -> u8 {
        let q = Poly::atom(a);
        let mut m = ANY;
        for (_, k, s) in &self.0.signs { if **k == q { m &= *s; } }
        match atom_def(a) {
            AtomDef::Fun(f, args) if (f == "abs" || f == "sqrt") => {
                m &= ZERO | POS;
                if depth > 0 {
                    let s = self.sign(&args[0], depth - 1);
                    if s & ZERO == 0 { m &= POS; }
                    if s == ZERO { m &= ZERO; }
                }
            }
            AtomDef::Fun(f, args) if depth > 0 && (f == "min" || f == "max") => {
                let x = self.sign(&args[0], depth - 1);
                let y = self.sign(&args[1], depth - 1);
                let mut r = 0;
                for (i, xs) in [NEG, ZERO, POS].iter().enumerate() { for (j, ys) in [NEG, ZERO, POS].iter().enumerate() {
                    if x & xs != 0 && y & ys != 0 {
                        let k = if f == "min" { i.min(j) } else { i.max(j) };
                        r |= [NEG, ZERO, POS][k];
                    }
                } }
                m &= r;
            }
            AtomDef::Opaque(t) => {
                if let T::Phi(_, a, b) = &*get(t) {
                    if depth > 0 {
                        let x = self.sign_term(*a, depth - 1) | self.sign_term(*b, depth - 1);
                        m &= x;
                    }
                }
            }
            _ => {}
        }
        m
    }
    fn prim_sign(&self, q: &Poly, depth: u32) -> u8 {
        let mut m = ANY;
        for (_, k, s) in &self.0.signs { if **k == *q { m &= *s; } }
        if m == 0 || (m & (m - 1)) == 0 { return m; }
        // monomial factor
        let mc = q.mono_content();
        if !mc.is_empty() {
            let mut s = self.poly_sign(&q.div_mono(&mc), depth);
            for (a, e) in mc {
                let mut as_ = self.atom_sign(a, depth);
                if e % 2 == 0 { as_ = (if as_ & ZERO != 0 { ZERO } else { 0 }) | if as_ & (NEG | POS) != 0 { POS } else { 0 }; }
                s = mulmask(s, as_);
            }
            m &= s;
            return m;
        }
        // sum of monomials of known sign
        let mut s = 0u8;
        let mut first = true;
        for (mono, c) in &q.t {
            let mut ms = if c.sign() > 0 { POS } else { NEG };
            for &(a, e) in mono {
                let mut as_ = self.atom_sign(a, depth);
                if e % 2 == 0 { as_ = (if as_ & ZERO != 0 { ZERO } else { 0 }) | if as_ & (NEG | POS) != 0 { POS } else { 0 }; }
                ms = mulmask(ms, as_);
            }
            s = if first { ms } else { addmask(s, ms) };
            first = false;
            if s == ANY { break; }
        }
        m &= s;
        if (m & (m.wrapping_sub(1))) == 0 { return m; }
        // interval of a univariate polynomial over known variable bounds
        if let Some((lo, hi)) = self.poly_interval(q) {
            if let Some((l, strict)) = lo { if l.sign() > 0 || (l.sign() == 0 && strict) { m &= POS; } else if l.sign() == 0 { m &= POS | ZERO; } }
            if let Some((h, strict)) = hi { if h.sign() < 0 || (h.sign() == 0 && strict) { m &= NEG; } else if h.sign() == 0 { m &= NEG | ZERO; } }
            if (m & (m.wrapping_sub(1))) == 0 { return m; }
        }
        if let Some((a, b, c)) = two_terms(q) {
            let mut o = self.order_sign(a, b);
            if c.sign() < 0 { o = flip(o); }
            m &= o;
            if (m & (m.wrapping_sub(1))) == 0 { return m; }
        }
        if depth == 0 { return m; }
        // q = x * f1 + y * f2 for recorded facts (x, y in {+-1}, scaled to clear)
        let fs: Vec<(Poly, u8)> = self.0.signs.iter().filter(|(r, _, _)| r.den.is_empty() && r.num.t.len() <= 24).map(|(r, _, s)| (r.num.clone(), *s)).collect();
        for (i, (f, s)) in fs.iter().enumerate() {
            for sg in [1i32, -1] {
                let sf = if sg == 1 { *s } else { flip(*s) };
                let rest = if sg == 1 { q.sub(f) } else { q.add(f) };
                let mut rs = 0;
                if let Some(c) = rest.as_const() { rs = match c.sign() { 0 => ZERO, 1 => POS, _ => NEG }; }
                else {
                    let (c, rq) = rest.primitive();
                    for (j, (g, gs)) in fs.iter().enumerate() {
                        if j == i { continue; }
                        let (gc, gp) = g.primitive();
                        if gp == rq { rs = if gc.sign() * c.sign() > 0 { *gs } else { flip(*gs) }; break; }
                    }
                }
                if rs != 0 { m &= addmask(sf, rs); if (m & (m.wrapping_sub(1))) == 0 { return m; } }
            }
        }
        m
    }
    /// possible signs of a - b implied by the chains of recorded comparisons x <= y, x < y
    fn order_sign(&self, a: Atom, b: Atom) -> u8 {
        let mut edges: Vec<(Atom, Atom, bool)> = vec![];
        for (r, _, s) in &self.0.signs {
            if !r.den.is_empty() { continue; }
            if let Some((x, y, c)) = two_terms(&r.num) {
                let s = if c.sign() < 0 { flip(*s) } else { *s };
                if s & POS == 0 { edges.push((x, y, s & ZERO == 0)); }
                if s & NEG == 0 { edges.push((y, x, s & ZERO == 0)); }
            }
        }
        let reach = |from: Atom, to: Atom| -> Option<bool> {
            let mut best: Vec<(Atom, bool)> = vec![(from, false)];
            let mut i = 0;
            while i < best.len() {
                let (n, st) = best[i];
                i += 1;
                for (x, y, e) in &edges {
                    if *x != n { continue; }
                    let ns = st || *e;
                    if !best.iter().any(|(k, s)| k == y && (*s || !ns)) { best.push((*y, ns)); }
                }
            }
            let mut r = None;
            for (k, s) in &best[1..] { if *k == to { r = Some(r.unwrap_or(false) || *s); } }
            r
        };
        let mut m = ANY;
        match reach(a, b) { Some(true) => m &= NEG, Some(false) => m &= NEG | ZERO, None => {} }
        match reach(b, a) { Some(true) => m &= POS, Some(false) => m &= POS | ZERO, None => {} }
        m
    }
    /// bounds of a variable implied by recorded comparisons with constants: (bound, strict)
    pub fn var_bounds(&self, a: Atom) -> (Option<(Rat, bool)>, Option<(Rat, bool)>) {
        let mut lo: Option<(Rat, bool)> = None;
        let mut hi: Option<(Rat, bool)> = None;
        let mut add = |is_lo: bool, v: Rat, strict: bool| {
            if is_lo {
                if lo.map_or(true, |(l, s)| l.lt(&v) || (l == v && strict && !s)) { lo = Some((v, strict)); }
            } else if hi.map_or(true, |(h, s)| v.lt(&h) || (h == v && strict && !s)) { hi = Some((v, strict)); }
        };
        for (r, _, s) in &self.0.signs {
            if !r.den.is_empty() || r.num.degree_in(a) != 1 { continue; }
            let cs = r.num.coeffs_in(a);
            if let (Some(c0), Some(c1)) = (cs[0].as_const(), cs[1].as_const()) {
                let b = c0.neg().div(c1); // root
                let s = if c1.sign() > 0 { *s } else { flip(*s) };
                match s {
                    x if x == POS => add(true, b, true),
                    x if x == NEG => add(false, b, true),
                    x if x == POS | ZERO => add(true, b, false),
                    x if x == NEG | ZERO => add(false, b, false),
                    x if x == ZERO => { add(true, b, false); add(false, b, false) }
                    _ => {}
                }
            }
        }
        (lo, hi)
    }
    fn poly_interval(&self, q: &Poly) -> Option<(Option<(Rat, bool)>, Option<(Rat, bool)>)> {
        let at = q.atoms();
        if at.len() != 1 { return None; }
        let (lo, hi) = self.var_bounds(at[0]);
        let cs: Vec<Rat> = q.coeffs_in(at[0]).iter().map(|c| c.as_const().unwrap()).collect();
        if cs.len() == 2 {
            let f = |b: Option<(Rat, bool)>| b.map(|(v, s)| (cs[0].add(cs[1].mul(v)), s));
            return Some(if cs[1].sign() > 0 { (f(lo), f(hi)) } else { (f(hi), f(lo)) });
        }
        // Bernstein coefficients on [lo,hi] enclose the range
        if let (Some((l, _)), Some((h, _))) = (lo, hi) {
            let b = bernstein_coeffs(&cs, l, h);
            let mn = b.iter().fold(b[0], |x, y| x.min(*y));
            let mx = b.iter().fold(b[0], |x, y| x.max(*y));
            return Some((Some((mn, false)), Some((mx, false))));
        }
        None
    }
    /// possible signs of a rational function (denominators are non-zero)
    pub fn sign(&self, r: &RatFn, depth: u32) -> u8 {
        if let Some(c) = r.as_const() { return match c.sign() { 0 => ZERO, 1 => POS, _ => NEG }; }
        let mut m = self.poly_sign(&r.num, depth);
        for (f, e) in &r.den {
            if e % 2 == 1 { m = mulmask(m, self.poly_sign(f, depth) & (NEG | POS)); }
        }
        if (m & (m.wrapping_sub(1))) == 0 && m != 0 { return m; }
        if !r.den.is_empty() || r.num.atoms().iter().any(|a| is_sqrt_atom(*a)) {
            let (k, sg) = Facts::key(r);
            let mut km = ANY;
            for (_, p, s) in &self.0.signs { if *p == k { km &= *s; } }
            if sg < 0 { km = flip(km); }
            m &= km;
            if (m & (m.wrapping_sub(1))) == 0 && m != 0 { return m; }
            for (f, _, s) in &self.0.signs {
                if f.eq(r) { m &= *s; } else if f.add(r).is_zero() { m &= flip(*s); }
            }
            if (m & (m.wrapping_sub(1))) == 0 && m != 0 { return m; }
            if let Some(q) = self.square_form(r) { m &= self.sign(&q, depth); }
        }
        m
    }
    /// k*sqrt(e) + r with r on the other side of zero has the sign of the
    /// difference of the squares
    fn square_form(&self, d: &RatFn) -> Option<RatFn> {
        if !d.den.is_empty() || d.num.t.len() > 60 { return None; }
        for s in d.num.atoms() {
            if !is_sqrt_atom(s) || d.num.degree_in(s) != 1 { continue; }
            let cs = d.num.coeffs_in(s);
            let k = match cs[1].as_const() { Some(k) => k, None => continue };
            if cs[0].is_zero() { continue; }
            let rs = self.poly_sign(&cs[0], 1);
            let e = sqrt_arg(s)?;
            let r2 = RatFn::poly(cs[0].mul(&cs[0]));
            let q = if k.sign() > 0 && rs & POS == 0 { e.scale(k.mul(k)).sub(&r2) }
                else if k.sign() < 0 && rs & NEG == 0 { r2.sub(&e.scale(k.mul(k))) }
                else { continue };
            if overflowed() { return None; }
            return Some(q);
        }
        None
    }
    pub fn sign_term(&self, t: Tm, depth: u32) -> u8 {
        let mut m = ANY;
        if nonneg(t) { m &= ZERO | POS; }
        if let Some(parts) = sos_parts(t) {
            // a sum of squares is zero only if every part is
            let mut all_zero = true;
            for p in &parts { let s = self.nf(*p).map_or(ANY, |r| self.sign(&r, 0)); if s & ZERO == 0 { return POS; } if s != ZERO { all_zero = false; } }
            if all_zero { return ZERO; }
        }
        match self.nf(t) { Some(r) => m & self.sign(&r, depth), None => m }
    }
    /// possible signs of a - b
    pub fn cmp(&self, a: Tm, b: Tm) -> u8 {
        if a == b { return ZERO; }
        if rounding() { return self.cmp_rounded(a, b); }
        self.cmp_exact(a, b)
    }
    /// values that are equal as real numbers but computed by different operations may
    /// come out either way round; what has been assumed about such a pair is kept
    fn cmp_rounded(&self, a: Tm, b: Tm) -> u8 {
        let z = cf(0.0);
        if b == z { if let T::Sub(x, y) = &*get(a) { return self.cmp(*x, *y); } }
        if a == z { if let T::Sub(x, y) = &*get(b) { return flip(self.cmp(*x, *y)); } }
        let mut m = self.cmp_exact(a, b);
        let consts = as_f64(a).is_some() && as_f64(b).is_some();
        let tie = !consts && match (self.nf(a), self.nf(b)) { (Some(x), Some(y)) => { let e = x.eq(&y); let o = overflowed(); if o { clear_overflow(); } e && !o } _ => false };
        if tie && m != ANY {
            let mut memo = HashMap::new();
            if crate::ck::exact(a, &mut memo) == crate::ck::exact(b, &mut memo) { return ZERO; }
            m = ANY;
        }
        if let T::Fun("min", v) = &*get(a) { if v.contains(&b) { m &= NEG | ZERO; } }
        if let T::Fun("max", v) = &*get(a) { if v.contains(&b) { m &= POS | ZERO; } }
        if let T::Fun("min", v) = &*get(b) { if v.contains(&a) { m &= POS | ZERO; } }
        if let T::Fun("max", v) = &*get(b) { if v.contains(&a) { m &= NEG | ZERO; } }
        for (x, y, k) in &self.0.raw { if *x == a && *y == b { m &= *k; } else if *x == b && *y == a { m &= flip(*k); } }
        m
    }
    fn cmp_exact(&self, a: Tm, b: Tm) -> u8 {
        if let (Some(x), Some(y)) = (as_f64(a), as_f64(b)) {
            return if x < y { NEG } else if x > y { POS } else if x == y { ZERO } else { 0 };
        }
        if let Some(y) = as_f64(b) { if is_huge(y) { return if y > 0.0 { NEG } else { POS }; } }
        if let Some(x) = as_f64(a) { if is_huge(x) { return if x > 0.0 { POS } else { NEG }; } }
        // infinitesimal tolerance: x vs +-eps is decided by the sign of x
        if let Some(y) = as_f64(b) { if tiny_for(y, a) { let m = self.sign_term(a, 2); return tie(m, if y > 0.0 { NEG } else { POS }); } }
        if let Some(x) = as_f64(a) { if tiny_for(x, b) { let m = flip(self.sign_term(b, 2)); return tie(m, if x > 0.0 { POS } else { NEG }); } }
        if as_f64(b) == Some(0.0) { return self.sign_term(a, 2); }
        if as_f64(a) == Some(0.0) { return flip(self.sign_term(b, 2)); }
        let (x, y) = match (self.nf(a), self.nf(b)) { (Some(x), Some(y)) => (x, y), _ => return ANY };
        let d = x.sub(&y);
        if overflowed() { clear_overflow(); return ANY; }
        let mut m = self.sign(&d, 2);
        if (m & (m.wrapping_sub(1))) != 0 {
            // tiny offset left after normalisation
            if d.den.is_empty() {
                let c = d.num.const_term();
                if !c.is_zero() && tiny_for(c.to_f64(), a) && tiny_for(c.to_f64(), b) {
                    let d0 = RatFn::poly(d.num.sub(&Poly::constant(c)));
                    m = tie(self.sign(&d0, 2), if c.sign() > 0 { POS } else { NEG });
                }
            }
            // min/max bounds: min(x,..) <= x etc.
            if let T::Fun("min", v) = &*get(a) { if v.contains(&b) { m &= NEG | ZERO; } }
            if let T::Fun("max", v) = &*get(a) { if v.contains(&b) { m &= POS | ZERO; } }
            if let T::Fun("min", v) = &*get(b) { if v.contains(&a) { m &= POS | ZERO; } }
            if let T::Fun("max", v) = &*get(b) { if v.contains(&a) { m &= NEG | ZERO; } }
        }
        m
    }
    pub fn decide(&self, c: Cd) -> Option<bool> {
        match &*getc(c) {
            C::B(b) => Some(*b),
            C::Lt(a, b) => mask_dec(self.cmp(*a, *b), NEG),
            C::Le(a, b) => mask_dec(self.cmp(*a, *b), NEG | ZERO),
            C::Eq(a, b) => mask_dec(self.cmp(*a, *b), ZERO),
            C::Not(a) => self.decide(*a).map(|b| !b),
            C::And(a, b) => match (self.decide(*a), self.decide(*b)) {
                (Some(false), _) | (_, Some(false)) => Some(false),
                (Some(true), Some(true)) => Some(true),
                _ => None,
            },
            C::Or(a, b) => match (self.decide(*a), self.decide(*b)) {
                (Some(true), _) | (_, Some(true)) => Some(true),
                (Some(false), Some(false)) => Some(false),
                _ => None,
            },
            C::Phi(c, a, b) => match self.decide(*c) {
                Some(true) => self.decide(*a),
                Some(false) => self.decide(*b),
                None => match (self.decide(*a), self.decide(*b)) { (Some(x), Some(y)) if x == y => Some(x), _ => None },
            },
        }
    }
    /// an undecided comparison inside c
    pub fn undecided_leaf(&self, c: Cd) -> Option<Cd> {
        if self.decide(c).is_some() { return None; }
        match &*getc(c) {
            C::B(_) => None,
            C::Lt(..) | C::Le(..) | C::Eq(..) => Some(c),
            C::Not(a) => self.undecided_leaf(*a),
            C::And(a, b) | C::Or(a, b) => self.undecided_leaf(*a).or_else(|| self.undecided_leaf(*b)),
            C::Phi(c, a, b) => self.undecided_leaf(*c).or_else(|| self.undecided_leaf(*a)).or_else(|| self.undecided_leaf(*b)),
        }
    }
    pub fn assume(&self, c: Cd, v: bool) -> Facts {
        match &*getc(c) {
            C::B(b) => if *b == v { self.clone() } else { self.contra() },
            C::Not(a) => self.assume(*a, !v),
            C::Lt(a, b) => self.assume_mask(*a, *b, if v { NEG } else { ZERO | POS }),
            C::Le(a, b) => self.assume_mask(*a, *b, if v { NEG | ZERO } else { POS }),
            C::Eq(a, b) => self.assume_mask(*a, *b, if v { ZERO } else { NEG | POS }),
            C::And(a, b) if v => self.assume(*a, true).assume(*b, true),
            C::Or(a, b) if !v => self.assume(*a, false).assume(*b, false),
            _ => self.clone(),
        }
    }
    fn contra(&self) -> Facts { let mut f = (*self.0).clone(); f.contradiction = true; Facts(Rc::new(f)) }
    pub fn contradictory(&self) -> bool { self.0.contradiction }
    /// one of the recorded comparisons is excluded by the others
    pub fn infeasible(&self) -> bool {
        if self.0.contradiction { return true; }
        let n = self.0.signs.len();
        if n < 2 || n > 40 { return false; }
        for i in 0..n {
            let (r, _, s) = self.0.signs[i].clone();
            if !r.den.is_empty() || r.num.t.len() > 24 { continue; }
            let mut f = (*self.0).clone();
            f.signs.remove(i);
            let m = Facts(Rc::new(f)).poly_sign(&r.num, 1);
            if overflowed() { clear_overflow(); continue; }
            if m & s == 0 { return true; }
        }
        false
    }
    /// record sign(a-b) in mask
    pub fn assume_mask(&self, a: Tm, b: Tm, mask: u8) -> Facts {
        let have = self.cmp(a, b);
        if have & mask == 0 { return self.contra(); }
        if have & !mask == 0 && have != 0 { return self.clone(); }
        let mask = mask & have;
        let (a, b, mask) = self.strip_tiny(a, b, mask);
        let mask = mask & self.cmp(a, b);
        if mask == 0 { return self.contra(); }
        let mut f = (*self.0).clone();
        if f.log.len() < 64 {
            f.log.push(format!("{} {} {}", show_d(a, 5), mask_str(mask), show_d(b, 5)));
        }
        f.raw.push((a, b, mask));
        let mut out = Facts(Rc::new(f));
        out.push_sign(a, b, mask);
        if mask == ZERO { out = out.assume_zero(sub(a, b)); }
        // |x| vs 0, sqrt(x) vs 0, x*x.. vs 0
        if as_f64(b) == Some(0.0) {
            if let T::Fun(n, v) = &*get(a) {
                if (*n == "abs" || *n == "sqrt") && mask & NEG == 0 && mask != (ZERO | POS) {
                    let inner = if mask == ZERO { ZERO } else if *n == "abs" { NEG | POS } else { POS };
                    out = out.assume_mask(v[0], b, inner);
                }
            }
        }
        out
    }
    fn strip_tiny(&self, a: Tm, b: Tm, mask: u8) -> (Tm, Tm, u8) {
        // sign(x - eps) in mask  <=>  sign(x) in mask' with zero falling to NEG (eps>0)
        let st = |y: f64, mask: u8| -> u8 {
            let z = if y > 0.0 { NEG } else { POS };
            let mut m = 0;
            if mask & NEG != 0 { m |= NEG; }
            if mask & POS != 0 { m |= POS; }
            if mask & z != 0 { m |= ZERO; }
            m
        };
        if let Some(y) = as_f64(b) { if tiny_for(y, a) { return (a, cf(0.0), st(y, mask)); } }
        if let Some(x) = as_f64(a) { if tiny_for(x, b) { return (b, cf(0.0), st(x, flip(mask))); } }
        if as_f64(a) == Some(0.0) { return (b, a, flip(mask)); }
        (a, b, mask)
    }
    fn push_sign(&mut self, a: Tm, b: Tm, mask: u8) {
        let f = Rc::make_mut(&mut self.0);
        if let (Some(x), Some(y)) = (nf(a, f.env), nf(b, f.env)) {
            let d = x.sub(&y);
            if overflowed() { clear_overflow(); return; }
            if let Some(c) = d.as_const() {
                let s = match c.sign() { 0 => ZERO, 1 => POS, _ => NEG };
                if c.is_zero() && rounding() { return; }
                if s & mask == 0 { f.contradiction = true; }
                return;
            }
            let (k, sg) = Facts::key(&d);
            if overflowed() { clear_overflow(); return; }
            f.signs.push((d.clone(), k, if sg < 0 { flip(mask) } else { mask }));
            // stored mask belongs to the key; keep the raw diff's own orientation consistent
            let n = f.signs.len() - 1;
            if sg < 0 { let d2 = f.signs[n].0.neg(); f.signs[n].0 = d2; }
            if let Some(q) = self.square_form(&d) {
                let (k, sg) = Facts::key(&q);
                if overflowed() { clear_overflow(); return; }
                let f = Rc::make_mut(&mut self.0);
                let (q, m) = if sg < 0 { (q.neg(), flip(mask)) } else { (q, mask) };
                f.signs.push((q, k, m));
            }
        }
    }
    fn assume_zero(&self, t: Tm) -> Facts {
        if let T::Sub(x, y) = &*get(t) {
            if as_f64(*y) == Some(0.0) { return self.assume_zero(*x); }
            if as_f64(*x) == Some(0.0) { return self.assume_zero(*y); }
        }
        if let Some(parts) = sos_parts(t) {
            let mut f = self.clone();
            for p in parts { f = f.assume_zero(p); }
            return f;
        }
        let r = match self.nf(t) { Some(r) => r, None => return self.clone() };
        if r.is_zero() { return self.clone(); }
        let p = &r.num;
        if p.as_const().is_some() { return self.contra(); }
        // linear in some variable with constant coefficient: substitute it away
        let mut at = p.atoms();
        at.sort_by_key(|a| std::cmp::Reverse(*a));
        for a in at {
            if !matches!(atom_def(a), AtomDef::Var(_)) || p.degree_in(a) != 1 { continue; }
            let cs = p.coeffs_in(a);
            if let Some(c1) = cs[1].as_const() {
                let rhs = RatFn::poly(cs[0].scale(c1.inv().neg()));
                // not through another atom's argument
                if rhs.atoms().iter().any(|x| !matches!(atom_def(*x), AtomDef::Var(_))) { continue; }
                if let Some(e) = env_extend(self.0.env, a, rhs) {
                    let mut f = (*self.0).clone();
                    f.env = e;
                    f.signs.clear();
                    let raw = f.raw.clone();
                    let mut out = Facts(Rc::new(f));
                    for (x, y, m) in raw { out.push_sign(x, y, m); }
                    return out;
                }
            }
        }
        self.clone()
    }
    /// direct fact on an atom term (used to seed entry assumptions)
    pub fn with_sign(&self, t: Tm, mask: u8) -> Facts { self.assume_mask(t, cf(0.0), mask) }
    pub fn with_subst(&self, t: Tm, r: Tm) -> Facts {
        let a = atom_of(t).expect("substituting a non-variable");
        let rf = (*self.nf(r).unwrap()).clone();
        let e = env_extend(self.0.env, a, rf).unwrap();
        let mut f = (*self.0).clone();
        f.env = e;
        f.signs.clear();
        let raw = f.raw.clone();
        let mut out = Facts(Rc::new(f));
        for (x, y, m) in raw { out.push_sign(x, y, m); }
        out
    }
}
/// c*(a - b)
fn two_terms(q: &Poly) -> Option<(Atom, Atom, Rat)> {
    if q.t.len() != 2 { return None; }
    let mut it = q.t.iter();
    let ((m1, c1), (m2, c2)) = (it.next()?, it.next()?);
    if m1.len() != 1 || m2.len() != 1 || m1[0].1 != 1 || m2[0].1 != 1 || !c1.add(*c2).is_zero() { return None; }
    Some((m1[0].0, m2[0].0, *c1))
}
fn tie(m: u8, z: u8) -> u8 { (m & (NEG | POS)) | if m & ZERO != 0 { z } else { 0 } }
fn mask_dec(m: u8, yes: u8) -> Option<bool> {
    if m == 0 { return Some(false); }
    if m & !yes == 0 { Some(true) } else if m & yes == 0 { Some(false) } else { None }
}
pub fn mask_str(m: u8) -> &'static str {
    match m { 1 => "<", 2 => "==", 3 => "<=", 4 => ">", 5 => "!=", 6 => ">=", 7 => "?", _ => "impossible" }
}
pub fn nonneg(t: Tm) -> bool {
    thread_local! { static MEMO: RefCell<HashMap<Tm, bool>> = RefCell::new(HashMap::new()); }
    if let Some(r) = MEMO.with(|m| m.borrow().get(&t).copied()) { return r; }
    let r = nonneg_of(t);
    MEMO.with(|m| m.borrow_mut().insert(t, r));
    r
}
fn nonneg_of(t: Tm) -> bool {
    match &*get(t) {
        T::Const(b, _) => f64::from_bits(*b) >= 0.0,
        T::Mul(a, b) => a == b || (nonneg(*a) && nonneg(*b)),
        T::Div(a, b) | T::Add(a, b) => nonneg(*a) && nonneg(*b),
        T::Fun("abs", _) | T::Fun("sqrt", _) => true,
        T::Fun("powi", v) => as_f64(v[1]).map_or(false, |k| (k as i64) % 2 == 0),
        T::Fun("max", v) => nonneg(v[0]) || nonneg(v[1]),
        T::Fun("min", v) => nonneg(v[0]) && nonneg(v[1]),
        T::Phi(_, a, b) => nonneg(*a) && nonneg(*b),
        _ => false,
    }
}
/// t = sum of squares: the list of squared parts
pub fn sos_parts(t: Tm) -> Option<Vec<Tm>> {
    match &*get(t) {
        T::Mul(a, b) if a == b => Some(vec![*a]),
        T::Fun("powi", v) if as_f64(v[1]) == Some(2.0) => Some(vec![v[0]]),
        T::Add(a, b) => {
            if as_f64(*a) == Some(0.0) { return sos_parts(*b); }
            if as_f64(*b) == Some(0.0) { return sos_parts(*a); }
            let mut x = sos_parts(*a)?;
            x.extend(sos_parts(*b)?);
            Some(x)
        }
        _ => None,
    }
}
pub fn bernstein_coeffs(cs: &[Rat], l: Rat, h: Rat) -> Vec<Rat> {
    // p(l + (h-l) u) in the Bernstein basis of its degree
    let n = cs.len() - 1;
    let w = h.sub(l);
    let mut q = vec![Rat::ZERO; n + 1];
    for (i, c) in cs.iter().enumerate() {
        // c * (l + w u)^i
        let mut b = Rat::ONE;
        for k in 0..=i {
            q[k] = q[k].add(c.mul(b).mul(l.powi((i - k) as u32)).mul(w.powi(k as u32)));
            b = b.mul(Rat::int((i - k) as i128)).div(Rat::int(k as i128 + 1));
        }
    }
    (0..=n).map(|j| {
        let mut s = Rat::ZERO;
        for k in 0..=j { s = s.add(binom(j, k).div(binom(n, k)).mul(q[k])); }
        s
    }).collect()
}
pub fn binom(n: usize, k: usize) -> Rat {
    let mut r = Rat::ONE;
    for i in 0..k { r = r.mul(Rat::int((n - i) as i128)).div(Rat::int(i as i128 + 1)); }
    r
}

/// does t contain Phi / min / max / abs (piecewise constructs)?
pub fn piecewise(t: Tm) -> bool {
    if let Some(b) = A.with(|a| a.borrow().has_phi.get(&t).copied()) { return b; }
    let r = match &*get(t) {
        T::Const(..) | T::Var(_) => false,
        T::Add(a, b) | T::Sub(a, b) | T::Mul(a, b) | T::Div(a, b) | T::Rem(a, b) => piecewise(*a) || piecewise(*b),
        T::Neg(a) => piecewise(*a),
        T::Fun(f, v) => matches!(*f, "min" | "max" | "abs" | "signum") || v.iter().any(|x| piecewise(*x)),
        T::Phi(..) => true,
    };
    A.with(|a| a.borrow_mut().has_phi.insert(t, r));
    r
}
/// eliminate decided Phi/min/max/abs under the facts
pub fn resolve(t: Tm, f: &Facts, memo: &mut HashMap<Tm, Tm>) -> Tm {
    if !piecewise(t) { return t; }
    if let Some(x) = memo.get(&t) { return *x; }
    let r = match &*get(t) {
        T::Const(..) | T::Var(_) => t,
        T::Add(a, b) => add(resolve(*a, f, memo), resolve(*b, f, memo)),
        T::Sub(a, b) => sub(resolve(*a, f, memo), resolve(*b, f, memo)),
        T::Mul(a, b) => mul(resolve(*a, f, memo), resolve(*b, f, memo)),
        T::Div(a, b) => div(resolve(*a, f, memo), resolve(*b, f, memo)),
        T::Rem(a, b) => rem(resolve(*a, f, memo), resolve(*b, f, memo)),
        T::Neg(a) => neg(resolve(*a, f, memo)),
        T::Fun(n, v) => {
            let v: Vec<Tm> = v.iter().map(|x| resolve(*x, f, memo)).collect();
            match *n {
                "min" | "max" => {
                    let m = f.cmp(v[0], v[1]);
                    let (lo, hi) = if m & POS == 0 { (v[0], v[1]) } else if m & NEG == 0 { (v[1], v[0]) } else {
                        let r = fun(n, v);
                        memo.insert(t, r);
                        return r;
                    };
                    if *n == "min" { lo } else { hi }
                }
                "abs" => {
                    let m = f.sign_term(v[0], 2);
                    if m & NEG == 0 { v[0] } else if m & POS == 0 { neg(v[0]) } else { fun("abs", v) }
                }
                "signum" => match f.sign_term(v[0], 2) { POS => cf(1.0), NEG => cf(-1.0), _ => fun("signum", v) },
                _ => fun(n, v),
            }
        }
        T::Phi(c, a, b) => {
            let c2 = resolve_cond(*c, f, memo);
            match f.decide(c2) {
                Some(true) => resolve(*a, f, memo),
                Some(false) => resolve(*b, f, memo),
                None => phi(c2, resolve(*a, f, memo), resolve(*b, f, memo)),
            }
        }
    };
    memo.insert(t, r);
    r
}
pub fn resolve_cond(c: Cd, f: &Facts, memo: &mut HashMap<Tm, Tm>) -> Cd {
    match &*getc(c) {
        C::B(_) => c,
        C::Lt(a, b) => lt(resolve(*a, f, memo), resolve(*b, f, memo)),
        C::Le(a, b) => le(resolve(*a, f, memo), resolve(*b, f, memo)),
        C::Eq(a, b) => eq(resolve(*a, f, memo), resolve(*b, f, memo)),
        C::Not(a) => not(resolve_cond(*a, f, memo)),
        C::And(a, b) => and(resolve_cond(*a, f, memo), resolve_cond(*b, f, memo)),
        C::Or(a, b) => or(resolve_cond(*a, f, memo), resolve_cond(*b, f, memo)),
        C::Phi(c, a, b) => {
            let c = resolve_cond(*c, f, memo);
            match f.decide(c) {
                Some(true) => resolve_cond(*a, f, memo),
                Some(false) => resolve_cond(*b, f, memo),
                None => cphi(c, resolve_cond(*a, f, memo), resolve_cond(*b, f, memo)),
            }
        }
    }
}
/// an innermost undecided condition that keeps t piecewise
pub fn split_cond(t: Tm, f: &Facts) -> Option<Cd> {
    if !piecewise(t) { return None; }
    match &*get(t) {
        T::Const(..) | T::Var(_) => None,
        T::Add(a, b) | T::Sub(a, b) | T::Mul(a, b) | T::Div(a, b) | T::Rem(a, b) => split_cond(*a, f).or_else(|| split_cond(*b, f)),
        T::Neg(a) => split_cond(*a, f),
        T::Fun(n, v) => {
            for x in v { if let Some(c) = split_cond(*x, f) { return Some(c); } }
            match *n {
                "min" | "max" => { let c = le(v[0], v[1]); if f.decide(c).is_none() { Some(c) } else { None } }
                "abs" | "signum" => { let c = le(cf(0.0), v[0]); if f.decide(c).is_none() { Some(c) } else { None } }
                _ => None,
            }
        }
        T::Phi(c, a, b) => {
            if let Some(l) = f.undecided_leaf(*c) {
                if let Some(x) = split_in_cond(l, f) { return Some(x); }
                return Some(l);
            }
            split_cond(*a, f).or_else(|| split_cond(*b, f))
        }
    }
}
pub fn split_in_cond(c: Cd, f: &Facts) -> Option<Cd> {
    match &*getc(c) {
        C::Lt(a, b) | C::Le(a, b) | C::Eq(a, b) => split_cond(*a, f).or_else(|| split_cond(*b, f)),
        _ => None,
    }
}

pub fn reset_has_phi() {}
