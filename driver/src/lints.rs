//! Rules that are decided on the program's items rather than on derived values.
use crate::ck::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir;
use rustc_middle::ty::{self, TyCtxt};
use std::cell::RefCell;
use std::collections::BTreeSet;

thread_local! { static LITS: RefCell<Vec<usize>> = RefCell::new(vec![]); }
/// integer literals that occur in the library (step counts around them are analysed too)
pub fn literals() -> Vec<usize> { LITS.with(|l| l.borrow().clone()) }

struct Lits(BTreeSet<usize>, bool);
const TOP: u128 = 70_000;
impl rustc_public::mir::MirVisitor for Lits {
    fn visit_const_operand(&mut self, c: &rustc_public::mir::ConstOperand, _l: rustc_public::mir::visit::Location) {
        use rustc_public::ty::{ConstantKind, FloatTy, RigidTy, TyKind};
        match c.const_.ty().kind() {
            TyKind::RigidTy(RigidTy::Uint(_)) => match c.const_.kind() {
                ConstantKind::Allocated(a) => if let Ok(v) = a.read_uint() { if v <= TOP { self.0.insert(v as usize); } },
                _ => if let Ok(v) = c.const_.eval_target_usize() { if v as u128 <= TOP { self.0.insert(v as usize); } },
            },
            TyKind::RigidTy(RigidTy::Int(_)) => if let ConstantKind::Allocated(a) = c.const_.kind() { if let Ok(v) = a.read_int() { if v >= 0 && v as u128 <= TOP { self.0.insert(v as usize); } } },
            TyKind::RigidTy(RigidTy::Float(FloatTy::F64)) => if let ConstantKind::Allocated(a) = c.const_.kind() {
                if let Ok(v) = a.read_uint() { let x = f64::from_bits(v as u64); if x >= 0.0 && x <= TOP as f64 && x.fract() == 0.0 { self.0.insert(x as usize); } }
            },
            _ => {}
        }
    }
    fn visit_rvalue(&mut self, r: &rustc_public::mir::Rvalue, l: rustc_public::mir::visit::Location) {
        use rustc_public::mir::{BinOp, CastKind, Rvalue};
        use rustc_public::ty::{IntTy, RigidTy, TyKind, UintTy};
        // a narrowing cast behaves differently from the limit of the narrow type on
        if let Rvalue::Cast(CastKind::IntToInt | CastKind::FloatToInt, _, t) = r {
            let w = match t.kind() { TyKind::RigidTy(RigidTy::Uint(UintTy::U8)) => 256, TyKind::RigidTy(RigidTy::Int(IntTy::I8)) => 128, TyKind::RigidTy(RigidTy::Uint(UintTy::U16)) => 65_536, TyKind::RigidTy(RigidTy::Int(IntTy::I16)) => 32_768, _ => 0 };
            if w > 0 { self.0.insert(w); }
        }
        if let Rvalue::BinaryOp(BinOp::Shl | BinOp::ShlUnchecked, ..) = r { self.1 = true; }
        self.super_rvalue(r, l);
    }
}
pub fn collect_literals() -> usize {
    use rustc_public::mir::MirVisitor;
    let mut l = Lits(BTreeSet::new(), false);
    let mut n = 0;
    for k in rustc_public::find_crates("stroke") {
        for f in k.fn_defs() { if let Some(b) = f.body() { n += 1; l.visit_body(&b); } }
    }
    if l.1 { for v in l.0.clone() { if (3..=16).contains(&v) { l.0.insert(1 << v); } } }
    LITS.with(|x| *x.borrow_mut() = l.0.into_iter().filter(|v| *v >= 6).collect());
    n
}

fn has_cell<'tcx>(tcx: TyCtxt<'tcx>, t: ty::Ty<'tcx>, seen: &mut Vec<ty::Ty<'tcx>>) -> Option<String> {
    if seen.contains(&t) { return None; }
    seen.push(t);
    match t.kind() {
        ty::Adt(d, a) => {
            if d.is_unsafe_cell() { return Some(format!("{}", t)); }
            for f in d.all_fields() { if let Some(x) = has_cell(tcx, f.ty(tcx, a).skip_norm_wip(), seen) { return Some(format!("{} in {}", x, t)); } }
            None
        }
        ty::Array(e, _) | ty::Slice(e) | ty::Ref(_, e, _) => has_cell(tcx, *e, seen),
        ty::Tuple(es) => es.iter().find_map(|e| has_cell(tcx, e, seen)),
        ty::RawPtr(..) => Some(format!("raw pointer {}", t)),
        ty::Dynamic(..) => Some(format!("trait object {}", t)),
        _ => None,
    }
}
fn addr_like(t: ty::Ty<'_>) -> bool { matches!(t.kind(), ty::RawPtr(..) | ty::FnPtr(..)) }
fn place(tcx: TyCtxt<'_>, d: DefId) -> String { span(tcx, tcx.def_span(d)) }
fn span(tcx: TyCtxt<'_>, s: rustc_span::Span) -> String {
    short(&tcx.sess.source_map().span_to_string(s, rustc_span::RemapPathScopeComponents::DIAGNOSTICS)).to_string()
}

pub struct Item { pub rule: &'static str, pub inst: String, pub r: Result<String, String>, pub place: String }

/// items of the library crate itself (runs in the library's own compilation)
pub fn purity(tcx: TyCtxt<'_>) -> (Vec<Item>, u64) {
    let mut v = vec![];
    let mut blocks = 0u64;
    let items = tcx.hir_crate_items(());
    for id in items.foreign_items() {
        let d = id.owner_id.to_def_id();
        v.push(Item { rule: "no foreign items", inst: tcx.def_path_str(d), r: Err("the library declares a foreign item".into()), place: place(tcx, d) });
    }
    v.push(Item { rule: "no foreign items", inst: "crate stroke".into(), r: Ok(format!("{} foreign items", items.foreign_items().count())), place: String::new() });
    for l in tcx.hir_crate_items(()).definitions() {
        let d = l.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Static { mutability, .. } => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let r = if mutability == ty::Mutability::Mut { Err("mutable static".into()) }
                    else if tcx.is_thread_local_static(d) { Err("thread-local static".into()) }
                    else { match has_cell(tcx, t, &mut vec![]) { Some(c) => Err(format!("static with interior mutability: {}", c)), None => Ok(format!("immutable static of type {}", t)) } };
                v.push(Item { rule: "every static is immutable", inst: tcx.def_path_str(d), r, place: place(tcx, d) });
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let r = match has_cell(tcx, t, &mut vec![]) { Some(c) => Err(format!("type with interior mutability or hidden sharing: {}", c)), None => Ok(format!("{} is plain data", t)) };
                v.push(Item { rule: "every type is free of interior mutability", inst: tcx.def_path_str(d), r, place: place(tcx, d) });
            }
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if !tcx.is_mir_available(d) { continue; }
                let b = tcx.optimized_mir(d);
                blocks += b.basic_blocks.len() as u64;
                let name = tcx.def_path_str(d);
                let mut bad = vec![];
                for bb in b.basic_blocks.iter() {
                    for s in &bb.statements {
                        if let mir::StatementKind::Assign(x) = &s.kind {
                            match &x.1 {
                                mir::Rvalue::ThreadLocalRef(t) => bad.push((format!("thread-local {}", tcx.def_path_str(*t)), s.source_info.span)),
                                mir::Rvalue::BinaryOp(mir::BinOp::Eq | mir::BinOp::Ne | mir::BinOp::Lt | mir::BinOp::Le | mir::BinOp::Gt | mir::BinOp::Ge | mir::BinOp::Cmp, ops) if addr_like(ops.0.ty(b, tcx)) => bad.push(("the addresses of values are compared".into(), s.source_info.span)),
                                mir::Rvalue::Cast(mir::CastKind::Transmute, op, to) if addr_like(op.ty(b, tcx)) && !addr_like(*to) => bad.push(("the address of a value is used as a number".into(), s.source_info.span)),
                                mir::Rvalue::Cast(mir::CastKind::PointerExposeProvenance, ..) => bad.push(("the address of a value is used as a number".into(), s.source_info.span)),
                                _ => {}
                            }
                        }
                    }
                    let te = bb.terminator();
                    match &te.kind {
                        mir::TerminatorKind::InlineAsm { .. } => bad.push(("inline assembly".into(), te.source_info.span)),
                        mir::TerminatorKind::Call { func, args, .. } => {
                            if args.iter().any(|a| { let mut t = a.node.ty(b, tcx); while let ty::Ref(_, e, _) = t.kind() { t = *e; } matches!(t.kind(), ty::RawPtr(..)) }) {
                                bad.push(("an operation on the address of a value".into(), te.source_info.span));
                            }
                            if let Some((cd, _)) = func.const_fn_def() {
                                let p = tcx.def_path_str(cd);
                                if tcx.is_foreign_item(cd) { bad.push((format!("call of the foreign function {}", p), te.source_info.span)); }
                                for m in ["core::ptr::eq", "core::ptr::addr_eq", "core::ptr::fn_addr_eq", "core::ptr::hash", "std::ptr::eq", "std::ptr::addr_eq", "std::ptr::fn_addr_eq", "std::ptr::hash", "core::panic::Location::", "std::panic::Location::", "core::fmt::Pointer", "std::fmt::Pointer", "core::sync::atomic", "std::sync", "std::io", "std::fs", "std::env", "std::time", "std::thread", "core::arch", "std::process", "core::ptr::write_volatile", "core::ptr::read_volatile"] {
                                    if p.starts_with(m) { bad.push((format!("call of {}", p), te.source_info.span)); }
                                }
                            }
                        }
                        _ => {}
                    }
                }
                for c in b.required_consts.iter().flat_map(|c| c.iter()) {
                    let _ = c;
                }
                if bad.is_empty() { v.push(Item { rule: "no function reaches outside its arguments", inst: name.clone(), r: Ok(format!("{} basic blocks", b.basic_blocks.len())), place: place(tcx, d) }); }
                for (m, s) in bad { v.push(Item { rule: "no function reaches outside its arguments", inst: name.clone(), r: Err(m), place: span(tcx, s) }); }
            }
            _ => {}
        }
    }
    (v, blocks)
}
pub fn environment(tcx: TyCtxt<'_>) -> Vec<Item> {
    let mut v = vec![];
    for c in tcx.crates(()) {
        let n = tcx.crate_name(*c).to_string();
        let r = if matches!(n.as_str(), "std" | "alloc" | "proc_macro" | "test" | "panic_unwind" | "panic_abort" | "hashbrown" | "libc") { Err(format!("crate `{}` is in the crate graph of the library", n)) } else { Ok(format!("crate {}", n)) };
        v.push(Item { rule: "neither the standard library nor an allocator is linked", inst: n, r, place: "crate graph of stroke".into() });
    }
    let mut n = 0;
    for l in tcx.hir_crate_items(()).definitions() {
        let d = l.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            n += 1;
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            let r = if sig.safety().is_unsafe() { Err("unsafe function".to_string()) } else { Ok("safe function, body type-checked with unsafe code forbidden".to_string()) };
            v.push(Item { rule: "no unsafe code", inst: tcx.def_path_str(d), r, place: place(tcx, d) });
        }
    }
    for i in tcx.hir_crate_items(()).free_items() {
        let it = tcx.hir_item(i);
        if let rustc_hir::ItemKind::Impl(im) = &it.kind {
            if let Some(t) = im.of_trait { if !it.span.in_derive_expansion() && t.safety == rustc_hir::Safety::Unsafe { v.push(Item { rule: "no unsafe code", inst: format!("impl at {}", span(tcx, it.span)), r: Err("unsafe impl".into()), place: span(tcx, it.span) }); } }
        }
    }
    let _ = n;
    v
}

/// t mentions the B-spline type; with_mut: behind a mutable reference
fn mentions<'tcx>(t: ty::Ty<'tcx>, spline: DefId, with_mut: bool, under: bool) -> bool {
    match t.kind() {
        ty::Adt(d, a) => (d.did() == spline && (under || !with_mut)) || a.types().any(|x| mentions(x, spline, with_mut, under)),
        ty::Ref(_, e, m) => mentions(*e, spline, with_mut, under || m.is_mut()),
        ty::Tuple(es) => es.iter().any(|x| mentions(x, spline, with_mut, under)),
        ty::Array(e, _) | ty::Slice(e) => mentions(*e, spline, with_mut, under),
        _ => false,
    }
}
/// nothing outside the crate can change a B-spline or make one without the constructor's checks
pub fn sealed(tcx: TyCtxt<'_>) -> Vec<Item> {
    let mut v = vec![];
    let krate = if tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str() == "stroke_probe" { rustc_hir::def_id::LOCAL_CRATE } else {
        match tcx.crates(()).iter().find(|c| tcx.crate_name(**c).as_str() == "stroke") { Some(c) => *c, None => return v }
    };
    // all items of the crate, from its root
    let (mut adts, mut fns) = (vec![], vec![]);
    let mut seen = std::collections::HashSet::new();
    let mut todo = vec![krate.as_def_id()];
    while let Some(m) = todo.pop() {
        if !seen.insert(m) { continue; }
        let kids: Vec<_> = match m.as_local() { Some(l) => tcx.module_children_local(l).iter().map(|c| (c.res, c.vis)).collect(), None => tcx.module_children(m).iter().map(|c| (c.res, c.vis)).collect() };
        for (res, _) in kids {
            let d = match res.opt_def_id() { Some(d) if d.krate == krate => d, _ => continue };
            match tcx.def_kind(d) {
                DefKind::Mod => todo.push(d),
                DefKind::Struct | DefKind::Enum | DefKind::Union => if !adts.contains(&d) { adts.push(d) },
                DefKind::Fn => if !fns.contains(&d) { fns.push(d) },
                _ => {}
            }
        }
    }
    if krate == rustc_hir::def_id::LOCAL_CRATE {
        for l in tcx.hir_crate_items(()).definitions() {
            let d = l.to_def_id();
            match tcx.def_kind(d) { DefKind::Struct => if !adts.contains(&d) { adts.push(d) }, DefKind::Fn => if !fns.contains(&d) { fns.push(d) }, _ => {} }
        }
    }
    let spline = match adts.iter().find(|d| tcx.item_name(**d).as_str() == "BSpline") { Some(d) => *d, None => { v.push(Item { rule: "no field of a B-spline can be reached from outside", inst: "crate stroke".into(), r: Err("the type BSpline is not reachable from the crate root".into()), place: String::new() }); return v; } };
    for f in tcx.adt_def(spline).all_fields() {
        v.push(Item { rule: "no field of a B-spline can be reached from outside", inst: format!("BSpline::{}", f.name), r: if f.vis.is_public() { Err("the field is public".into()) } else { Ok("private to the crate".into()) }, place: place(tcx, f.did) });
    }
    let mut sig = |d: DefId, name: String, of: &str| {
        let s = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
        let touches = s.inputs().iter().chain([&s.output()]).any(|t| mentions(*t, spline, false, false));
        if !touches { return; }
        // replacing the whole B-spline by a copy of another one (C28 decides that it is one)
        let replaces = of == "Clone" && tcx.item_name(d).as_str() == "clone_from";
        let r = if replaces { Ok("replaces the B-spline by a copy of a valid one".to_string()) } else if s.inputs().iter().any(|t| mentions(*t, spline, true, false)) { Err("takes a B-spline by mutable reference".to_string()) } else { Ok("no mutable access".to_string()) };
        v.push(Item { rule: "no public operation changes a B-spline", inst: name.clone(), r, place: place(tcx, d) });
        if mentions(s.output(), spline, false, false) {
            let known = (of == "" && ["new", "derivative"].contains(&tcx.item_name(d).as_str())) || of == "Clone";
            v.push(Item { rule: "every B-spline comes from the checked constructor, a derivative or a clone", inst: name, r: if known { Ok("its results are decided by the rules of C11, C14, C28 and C30".into()) } else { Err("another public operation makes B-splines; nothing establishes that they are valid".into()) }, place: place(tcx, d) });
        }
    };
    for f in fns { if tcx.visibility(f).is_public() { sig(f, tcx.def_path_str(f), "function"); } }
    for a in &adts { for i in tcx.inherent_impls(*a) { for f in tcx.associated_item_def_ids(*i) {
        if tcx.def_kind(*f) == DefKind::AssocFn && tcx.visibility(*f).is_public() { sig(*f, tcx.def_path_str(*f), if *a == spline { "" } else { "type" }); }
    } } }
    for tr in tcx.all_traits_including_private() { for i in tcx.all_impls(tr) {
        if i.krate != krate { continue; }
        let name = tcx.item_name(tr);
        for f in tcx.associated_item_def_ids(i) { if tcx.def_kind(*f) == DefKind::AssocFn { sig(*f, tcx.def_path_str(*f), name.as_str()); } }
    } }
    v
}
