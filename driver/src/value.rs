//! Abstract values.
use crate::term::*;
use rustc_public::mir::mono::Instance;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Step {
    /// field of a struct / tuple / enum payload
    F(u32),
    /// element of an array
    I(i64),
    /// view of `len` elements from `start` (slices, array views)
    V(i64, u64),
    /// the object itself seen as a one-element array
    O,
    /// a struct seen through an unsized pointer (length of its slice tail)
    U(u64),
    /// a zero-sized part
    Z,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Base { Mem(usize), Glob(usize) }
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Ptr { pub base: Base, pub path: Rc<Vec<Step>> }

#[derive(Clone, Debug)]
pub enum Val {
    Uninit,
    Unit,
    /// a value the analysis does not look into (vtables, formatting arguments)
    Opaque,
    I(i128),
    C(Cd),
    F(Tm),
    P(Ptr),
    A(Rc<Agg>),
    Fn(Instance),
    /// joined value that is not a plain number
    Phi(Cd, Rc<Val>, Rc<Val>),
}
#[derive(Clone, Debug)]
pub struct Agg { pub variant: u32, pub f: Vec<Val> }

pub fn agg(variant: u32, f: Vec<Val>) -> Val { Val::A(Rc::new(Agg { variant, f })) }
pub fn ptr(base: Base, path: Vec<Step>) -> Val { Val::P(Ptr { base, path: Rc::new(path) }) }
pub fn vbool(b: bool) -> Val { Val::C(cb(b)) }

/// structural equality (numbers by value number)
pub fn veq(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Uninit, Val::Uninit) | (Val::Unit, Val::Unit) | (Val::Opaque, Val::Opaque) => true,
        (Val::I(x), Val::I(y)) => x == y,
        (Val::C(x), Val::C(y)) => x == y,
        (Val::F(x), Val::F(y)) => x == y,
        (Val::P(x), Val::P(y)) => x == y,
        (Val::Fn(x), Val::Fn(y)) => x == y,
        (Val::A(x), Val::A(y)) => Rc::ptr_eq(x, y) || (x.variant == y.variant && x.f.len() == y.f.len() && x.f.iter().zip(&y.f).all(|(p, q)| veq(p, q))),
        (Val::Phi(c, x, y), Val::Phi(d, z, w)) => c == d && (Rc::ptr_eq(x, z) || veq(x, z)) && (Rc::ptr_eq(y, w) || veq(y, w)),
        _ => false,
    }
}
/// join of two values at a control-flow merge, selected by c
pub fn join(c: Cd, a: &Val, b: &Val) -> Val {
    match (a, b) {
        (Val::Uninit, x) | (x, Val::Uninit) => x.clone(),
        (Val::F(x), Val::F(y)) => Val::F(phi(c, *x, *y)),
        (Val::C(x), Val::C(y)) => Val::C(cphi(c, *x, *y)),
        (Val::A(x), Val::A(y)) if Rc::ptr_eq(x, y) => a.clone(),
        (Val::A(x), Val::A(y)) if x.variant == y.variant => {
            let n = x.f.len().max(y.f.len());
            let u = Val::Uninit;
            agg(x.variant, (0..n).map(|i| join(c, x.f.get(i).unwrap_or(&u), y.f.get(i).unwrap_or(&u))).collect())
        }
        _ => if veq(a, b) { a.clone() } else { Val::Phi(c, Rc::new(a.clone()), Rc::new(b.clone())) },
    }
}
