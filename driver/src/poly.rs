//! Multivariate polynomials and rational functions over Q: the algebraic
//! abstract domain ("what this value is, as a function of the inputs").
use crate::rat::*;
use std::collections::BTreeMap;
use std::fmt;
use std::rc::Rc;

pub type Atom = u32;
pub type Mono = Vec<(Atom, u16)>;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Poly { pub t: BTreeMap<Mono, Rat> }

fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    if a.is_empty() { return b.clone(); }
    if b.is_empty() { return a.clone(); }
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i].0 < b[j].0 { r.push(a[i]); i += 1; }
        else if a[i].0 > b[j].0 { r.push(b[j]); j += 1; }
        else { r.push((a[i].0, a[i].1 + b[j].1)); i += 1; j += 1; }
    }
    r.extend_from_slice(&a[i..]); r.extend_from_slice(&b[j..]);
    r
}
fn mono_div(a: &Mono, b: &Mono) -> Option<Mono> {
    let mut r = Vec::with_capacity(a.len());
    let mut j = 0;
    for &(v, e) in a {
        if j < b.len() && b[j].0 == v {
            if b[j].1 > e { return None; }
            if e > b[j].1 { r.push((v, e - b[j].1)); }
            j += 1;
        } else {
            if j < b.len() && b[j].0 < v { return None; }
            r.push((v, e));
        }
    }
    if j < b.len() { return None; }
    Some(r)
}
/// graded-lex style order good enough for exact division (a true monomial order)
fn mono_cmp(a: &Mono, b: &Mono) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    let (mut i, mut j) = (0, 0);
    loop {
        match (a.get(i), b.get(j)) {
            (None, None) => return Equal,
            (Some(_), None) => return Greater,
            (None, Some(_)) => return Less,
            (Some(x), Some(y)) => {
                if x.0 < y.0 { return Greater; }
                if x.0 > y.0 { return Less; }
                if x.1 != y.1 { return x.1.cmp(&y.1); }
            }
        }
        i += 1; j += 1;
    }
}

impl Poly {
    pub fn zero() -> Poly { Poly::default() }
    pub fn constant(c: Rat) -> Poly { let mut p = Poly::zero(); if !c.is_zero() { p.t.insert(vec![], c); } p }
    pub fn one() -> Poly { Poly::constant(Rat::ONE) }
    pub fn atom(a: Atom) -> Poly { let mut p = Poly::zero(); p.t.insert(vec![(a, 1)], Rat::ONE); p }
    pub fn is_zero(&self) -> bool { self.t.is_empty() }
    pub fn as_const(&self) -> Option<Rat> {
        if self.t.is_empty() { return Some(Rat::ZERO); }
        if self.t.len() == 1 { if let Some(c) = self.t.get(&vec![] as &Mono) { return Some(*c); } }
        None
    }
    pub fn const_term(&self) -> Rat { self.t.get(&vec![] as &Mono).copied().unwrap_or(Rat::ZERO) }
    fn add_term(&mut self, m: Mono, c: Rat) {
        if c.is_zero() { return; }
        match self.t.entry(m) {
            std::collections::btree_map::Entry::Vacant(v) => { v.insert(c); }
            std::collections::btree_map::Entry::Occupied(mut o) => {
                let s = o.get().add(c);
                if s.is_zero() { o.remove(); } else { *o.get_mut() = s; }
            }
        }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let (mut r, s) = if self.t.len() >= o.t.len() { (self.clone(), o) } else { (o.clone(), self) };
        for (m, c) in &s.t { r.add_term(m.clone(), *c); }
        r
    }
    pub fn neg(&self) -> Poly { Poly { t: self.t.iter().map(|(m, c)| (m.clone(), c.neg())).collect() } }
    pub fn sub(&self, o: &Poly) -> Poly {
        let mut r = self.clone();
        for (m, c) in &o.t { r.add_term(m.clone(), c.neg()); }
        r
    }
    pub fn scale(&self, k: Rat) -> Poly {
        if k.is_zero() { return Poly::zero(); }
        Poly { t: self.t.iter().map(|(m, c)| (m.clone(), c.mul(k))).filter(|(_, c)| !c.is_zero()).collect() }
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        if let Some(c) = self.as_const() { return o.scale(c); }
        if let Some(c) = o.as_const() { return self.scale(c); }
        let mut r = Poly::zero();
        // too large to be worth expanding: treated like an arithmetic overflow
        if self.t.len() * o.t.len() > 400_000 { let _ = Rat::new(1, 0); return r; }
        for (m1, c1) in &self.t { for (m2, c2) in &o.t { r.add_term(mono_mul(m1, m2), c1.mul(*c2)); } }
        r
    }
    pub fn pow(&self, k: u32) -> Poly { let mut r = Poly::one(); for _ in 0..k { r = r.mul(self); } r }
    pub fn lead(&self) -> Option<(&Mono, &Rat)> {
        self.t.iter().max_by(|a, b| mono_cmp(a.0, b.0))
    }
    pub fn div_exact(&self, q: &Poly) -> Option<Poly> {
        if q.is_zero() { return None; }
        if let Some(c) = q.as_const() { return Some(self.scale(c.inv())); }
        let (lm, lc) = { let (m, c) = q.lead().unwrap(); (m.clone(), *c) };
        let mut r = self.clone();
        let mut out = Poly::zero();
        let mut fuel = 4 * self.t.len() + 16;
        while !r.is_zero() {
            if fuel == 0 || overflowed() { return None; }
            fuel -= 1;
            let (m, c) = { let (m, c) = r.lead().unwrap(); (m.clone(), *c) };
            let qm = mono_div(&m, &lm)?;
            let qc = c.div(lc);
            for (m2, c2) in &q.t { r.add_term(mono_mul(&qm, m2), c2.mul(qc).neg()); }
            out.add_term(qm, qc);
        }
        Some(out)
    }
    /// (content, primitive part with positive leading coefficient)
    pub fn primitive(&self) -> (Rat, Poly) {
        if self.is_zero() { return (Rat::ZERO, Poly::zero()); }
        let mut g: i128 = 0;
        let mut l: i128 = 1;
        for c in self.t.values() {
            g = igcd(g, c.n);
            let h = igcd(l, c.d);
            match (l / h).checked_mul(c.d) { Some(x) => l = x, None => { return (Rat::ONE, self.clone()) } }
        }
        let mut c = Rat::new(g, l);
        if self.lead().unwrap().1.sign() < 0 { c = c.neg(); }
        (c, self.scale(c.inv()))
    }
    pub fn atoms(&self) -> Vec<Atom> {
        let mut v: Vec<Atom> = self.t.keys().flat_map(|m| m.iter().map(|x| x.0)).collect();
        v.sort(); v.dedup(); v
    }
    pub fn degree_in(&self, a: Atom) -> u16 {
        self.t.keys().map(|m| m.iter().find(|x| x.0 == a).map(|x| x.1).unwrap_or(0)).max().unwrap_or(0)
    }
    /// coefficients by power of `a`
    pub fn coeffs_in(&self, a: Atom) -> Vec<Poly> {
        let mut v = vec![Poly::zero(); self.degree_in(a) as usize + 1];
        for (m, c) in &self.t {
            let e = m.iter().find(|x| x.0 == a).map(|x| x.1).unwrap_or(0) as usize;
            let m2: Mono = m.iter().copied().filter(|x| x.0 != a).collect();
            v[e].add_term(m2, *c);
        }
        v
    }
    pub fn has(&self, a: Atom) -> bool { self.t.keys().any(|m| m.iter().any(|x| x.0 == a)) }
    /// common monomial factor
    pub fn mono_content(&self) -> Mono {
        let mut it = self.t.keys();
        let mut g = match it.next() { Some(m) => m.clone(), None => return vec![] };
        for m in it {
            g = g.iter().filter_map(|&(v, e)| m.iter().find(|x| x.0 == v).map(|x| (v, e.min(x.1)))).collect();
            if g.is_empty() { break; }
        }
        g
    }
    pub fn div_mono(&self, m: &Mono) -> Poly {
        Poly { t: self.t.iter().map(|(k, c)| (mono_div(k, m).unwrap(), *c)).collect() }
    }
}

/// num / prod(den factors); factors are primitive and non-constant
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct RatFn { pub num: Poly, pub den: BTreeMap<Rc<Poly>, u32> }

impl RatFn {
    pub fn poly(p: Poly) -> RatFn { RatFn { num: p, den: BTreeMap::new() } }
    pub fn constant(c: Rat) -> RatFn { RatFn::poly(Poly::constant(c)) }
    pub fn atom(a: Atom) -> RatFn { RatFn::poly(Poly::atom(a)) }
    pub fn zero() -> RatFn { RatFn::poly(Poly::zero()) }
    pub fn one() -> RatFn { RatFn::poly(Poly::one()) }
    pub fn is_zero(&self) -> bool { self.num.is_zero() }
    pub fn as_const(&self) -> Option<Rat> { if self.den.is_empty() || self.num.is_zero() { self.num.as_const() } else { None } }
    pub fn den_poly(&self) -> Poly {
        let mut r = Poly::one();
        for (f, e) in &self.den { r = r.mul(&f.pow(*e)); }
        r
    }
    pub fn neg(&self) -> RatFn { RatFn { num: self.num.neg(), den: self.den.clone() } }
    pub fn scale(&self, k: Rat) -> RatFn {
        if k.is_zero() { return RatFn::zero(); }
        RatFn { num: self.num.scale(k), den: self.den.clone() }
    }
    pub fn add(&self, o: &RatFn) -> RatFn {
        if self.den == o.den { return RatFn { num: self.num.add(&o.num), den: self.den.clone() }.cancel(); }
        let mut den = self.den.clone();
        for (f, e) in &o.den { let x = den.entry(f.clone()).or_insert(0); *x = (*x).max(*e); }
        let up = |r: &RatFn| {
            let mut n = r.num.clone();
            for (f, e) in &den {
                let have = r.den.get(f).copied().unwrap_or(0);
                if *e > have { n = n.mul(&f.pow(*e - have)); }
            }
            n
        };
        RatFn { num: up(self).add(&up(o)), den: den.clone() }.cancel()
    }
    pub fn sub(&self, o: &RatFn) -> RatFn { self.add(&o.neg()) }
    pub fn mul(&self, o: &RatFn) -> RatFn {
        let mut den = self.den.clone();
        for (f, e) in &o.den { *den.entry(f.clone()).or_insert(0) += *e; }
        let r = RatFn { num: self.num.mul(&o.num), den };
        reduce_roots(r).cancel()
    }
    pub fn inv(&self) -> Option<RatFn> {
        if self.num.is_zero() { return None; }
        let (c, p) = self.num.primitive();
        let num = self.den_poly().scale(c.inv());
        let mut den = BTreeMap::new();
        let mc = p.mono_content();
        let q = if mc.is_empty() { p } else { p.div_mono(&mc) };
        for (a, e) in mc { den.insert(Rc::new(Poly::atom(a)), e as u32); }
        if q.as_const().is_none() { *den.entry(Rc::new(q)).or_insert(0) += 1; }
        Some(RatFn { num, den }.cancel())
    }
    pub fn div(&self, o: &RatFn) -> Option<RatFn> { Some(self.mul(&o.inv()?)) }
    pub fn pow(&self, k: u32) -> RatFn { let mut r = RatFn::one(); for _ in 0..k { r = r.mul(self); } r }
    pub fn cancel(mut self) -> RatFn {
        if self.num.is_zero() { self.den.clear(); return self; }
        if self.den.is_empty() { return self; }
        if self.num.t.len() > 400 { return self; }
        let fs: Vec<_> = self.den.keys().cloned().collect();
        for f in fs {
            while let Some(e) = self.den.get(&f).copied() {
                match self.num.div_exact(&f) {
                    Some(q) => {
                        self.num = q;
                        if e == 1 { self.den.remove(&f); } else { self.den.insert(f.clone(), e - 1); }
                    }
                    None => break,
                }
            }
        }
        self
    }
    pub fn eq(&self, o: &RatFn) -> bool { self.sub(o).is_zero() }
    pub fn atoms(&self) -> Vec<Atom> {
        let mut v = self.num.atoms();
        for f in self.den.keys() { v.extend(f.atoms()); }
        v.sort(); v.dedup(); v
    }
    pub fn has(&self, a: Atom) -> bool { self.num.has(a) || self.den.keys().any(|f| f.has(a)) }
    /// substitute atoms
    pub fn subst(&self, f: &dyn Fn(Atom) -> Option<RatFn>) -> Option<RatFn> {
        let mut r = subst_poly(&self.num, f);
        for (p, e) in &self.den {
            let q = subst_poly(p, f);
            for _ in 0..*e { r = r.div(&q)?; }
        }
        Some(r)
    }
}

pub fn subst_poly(p: &Poly, f: &dyn Fn(Atom) -> Option<RatFn>) -> RatFn {
    let mut r = RatFn::zero();
    let mut keep = Poly::zero();
    for (m, c) in &p.t {
        let mut rest: Mono = vec![];
        let mut acc: Option<RatFn> = None;
        for &(a, e) in m {
            match f(a) {
                Some(s) => { let s = s.pow(e as u32); acc = Some(match acc { None => s, Some(x) => x.mul(&s) }); }
                None => rest.push((a, e)),
            }
        }
        match acc {
            None => keep.add_term(rest, *c),
            Some(x) => { let mut q = Poly::zero(); q.t.insert(rest, *c); r = r.add(&x.mul(&RatFn::poly(q))); }
        }
    }
    r.add(&RatFn::poly(keep))
}

thread_local! { static SQRT_ARG: std::cell::RefCell<std::collections::HashMap<Atom, RatFn>> = Default::default(); }
pub fn register_sqrt(a: Atom, arg: RatFn) { SQRT_ARG.with(|m| { m.borrow_mut().insert(a, arg); }) }
pub fn is_sqrt_atom(a: Atom) -> bool { SQRT_ARG.with(|m| m.borrow().contains_key(&a)) }
pub fn sqrt_arg(a: Atom) -> Option<RatFn> { SQRT_ARG.with(|m| m.borrow().get(&a).cloned()) }

/// rewrite s^k for square-root atoms s = sqrt(e): s^2 -> e
pub fn reduce_roots(r: RatFn) -> RatFn {
    let any = SQRT_ARG.with(|m| {
        let m = m.borrow();
        if m.is_empty() { return None; }
        for k in r.num.t.keys() { for &(a, e) in k { if e >= 2 && m.contains_key(&a) { return Some((a, m[&a].clone())); } } }
        None
    });
    let (a, arg) = match any { None => return r, Some(x) => x };
    let cs = r.num.coeffs_in(a);
    let mut acc = RatFn::zero();
    for (k, c) in cs.iter().enumerate() {
        if c.is_zero() { continue; }
        let mut t = RatFn::poly(c.clone());
        for _ in 0..k / 2 { t = t.mul(&arg); }
        if k % 2 == 1 { t = t.mul(&RatFn::atom(a)); }
        acc = acc.add(&t);
    }
    let mut den = acc.den.clone();
    for (f, e) in &r.den { *den.entry(f.clone()).or_insert(0) += *e; }
    reduce_roots(RatFn { num: acc.num, den })
}

pub fn show_poly(p: &Poly, name: &dyn Fn(Atom) -> String) -> String {
    if p.is_zero() { return "0".into(); }
    let mut s = String::new();
    for (i, (m, c)) in p.t.iter().enumerate() {
        if i >= 24 { s.push_str(&format!(" + ...({} terms)", p.t.len())); break; }
        let neg = c.sign() < 0;
        if i == 0 { if neg { s.push('-'); } } else { s.push_str(if neg { " - " } else { " + " }); }
        let ca = c.abs();
        let mut first = true;
        if ca != Rat::ONE || m.is_empty() { s.push_str(&ca.to_string()); first = false; }
        for &(a, e) in m {
            if !first { s.push('*'); }
            first = false;
            s.push_str(&name(a));
            if e > 1 { s.push_str(&format!("^{}", e)); }
        }
    }
    s
}
impl fmt::Debug for Poly {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", show_poly(self, &|a| format!("a{}", a))) }
}
impl fmt::Debug for RatFn {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "({:?})", self.num)?;
        for (d, e) in &self.den { write!(f, "/({:?})^{}", d, e)?; }
        Ok(())
    }
}
