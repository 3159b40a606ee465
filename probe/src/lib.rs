//! Positive examples for the item rules of C16 and C19: every construct in
//! here must be reported on every run, otherwise the rules are broken.
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};
static mut COUNTER: usize = 0;
static SHARED: AtomicUsize = AtomicUsize::new(0);
pub struct Cached { pub v: Cell<f64> }
extern "C" { fn getpid() -> i32; }
pub fn counts() -> usize { SHARED.fetch_add(1, Ordering::Relaxed) }
pub fn calls_out() -> i32 { unsafe { getpid() } }
pub unsafe fn unsafe_fn() -> usize { COUNTER += 1; COUNTER }
pub struct Marker(*const u8);
unsafe impl Send for Marker {}
pub fn prints(x: f64) { println!("{}", x); }
pub fn address(x: &f64) -> usize { x as *const f64 as usize }
pub fn same_place(a: &f64, b: &f64) -> bool { std::ptr::eq(a, b) }
pub fn later(a: &[f64], b: &[f64]) -> bool { a.as_ptr() < b.as_ptr() }
pub fn aligned(a: &f64) -> usize { (a as *const f64).addr() & 15 }
#[track_caller]
pub fn called_from() -> u32 { std::panic::Location::caller().line() }
/// Positive examples for the item rules of C30.
pub struct BSpline { pub knots: [f64; 4] }
impl BSpline {
    pub fn new(knots: [f64; 4]) -> Option<BSpline> { if knots[0] <= knots[3] { Some(BSpline { knots }) } else { None } }
    pub fn set(&mut self, i: usize, k: f64) { self.knots[i] = k; }
    pub fn knots_mut(&mut self) -> core::slice::IterMut<'_, f64> { self.knots.iter_mut() }
}
impl Default for BSpline { fn default() -> Self { BSpline { knots: [0.0; 4] } } }
