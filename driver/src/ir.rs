//! Monomorphic MIR as the analysis sees it: bodies are taken from the
//! compiler's type-checked program through rustc_public, lowered to a compact
//! form (newtypes flattened, zero-sized data elided, constants decoded).
use crate::term::*;
use crate::value::*;
use rustc_public::abi::{Scalar, TagEncoding, VariantsShape, FieldsShape};
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::*;
use rustc_public::ty::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug)]
pub enum TyI {
    Bool,
    Char,
    Int { bits: u32, signed: bool },
    Float(u32),
    Array(Ty, u64),
    Slice(Ty),
    Str,
    Ptr(Ty),
    FnPtr,
    FnDef(FnDef, GenericArgs),
    Closure(ClosureDef, GenericArgs, Vec<Ty>),
    Adt { def: AdtDef, kind: AdtKind, variants: Vec<Vec<Ty>>, discr: Vec<i128>, trans: Option<usize>, name: String },
    Tuple(Vec<Ty>),
    Never,
    Other,
}
pub struct TyInfo { pub k: TyI, pub zst: bool }

#[derive(Clone, Debug)]
pub enum Pj {
    Deref,
    Field(usize),
    Index(usize),
    ConstIdx { off: u64, from_end: bool, len: Option<u64> },
    Sub { from: u64, to: u64, from_end: bool, len: Option<u64> },
    Zst,
    Tail(usize, bool),
}
#[derive(Clone, Debug)]
pub struct Pl { pub local: usize, pub proj: Vec<Pj>, pub ty: Ty, pub zst: bool }
#[derive(Clone, Debug)]
pub enum Op { Copy(Pl), Const(Val, Ty), Unsupported(String) }
#[derive(Clone, Debug)]
pub enum Rv {
    Use(Op),
    Repeat(Op, u64),
    Ref(Pl),
    Bin(BinOp, Op, Op, Ty, bool),
    Un(UnOp, Op, Ty),
    Cast(CastKind, Op, Ty, Ty),
    Discr(Pl),
    Len(Pl),
    /// variant, operand indices kept (None: zero-sized)
    Agg(u32, Vec<Op>),
    /// flattened newtype / union: the single carrier operand
    Carrier(Option<Op>),
    Array(Vec<Op>),
    RawPtr(Op, Op),
    Unsupported(String),
}
#[derive(Clone, Debug)]
pub enum St {
    Assign(Pl, Rv),
    SetDiscr(Pl, u32),
    Live(usize),
    Dead(usize),
    CopyNon(Op, Op, Op, Ty),
    Nop,
}
#[derive(Clone, Debug)]
pub enum Callee { Direct(FnDef, GenericArgs, bool), Indirect(Op, Ty) }
#[derive(Clone, Debug)]
pub enum Te {
    Goto(usize),
    Switch(Op, Vec<(u128, usize)>, usize),
    Return,
    Unreachable,
    Drop(Pl, usize),
    Call { f: Callee, args: Vec<Op>, argtys: Vec<Ty>, dest: Pl, target: Option<usize> },
    Assert { cond: Op, expected: bool, msg: String, target: usize },
    Unsupported(String),
}
pub struct Blk { pub st: Vec<St>, pub te: Te, pub spans: Vec<Span> }
pub struct Fun {
    pub inst: Instance,
    pub name: String,
    pub file: String,
    pub line: usize,
    pub in_stroke: bool,
    pub blocks: Vec<Blk>,
    pub locals: Vec<Ty>,
    pub nargs: usize,
    pub spread: Option<usize>,
    pub ipdom: Vec<Option<usize>>,
    pub can_return: Vec<bool>,
    pub has_loop: bool,
}

pub struct Cx {
    pub tys: HashMap<Ty, Rc<TyInfo>>,
    pub funs: HashMap<Instance, Option<Rc<Fun>>>,
    pub globals: Vec<Val>,
    gix: HashMap<(GKey, usize, Ty, u64), usize>,
    pub resolved: HashMap<(FnDef, Vec<GenericArgKind>), Option<Instance>>,
    pub names: HashMap<Instance, Rc<str>>,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct GKey(pub rustc_public::mir::alloc::AllocId);

pub fn has_index_ty(t: Ty) -> bool { let _ = t; true }

impl Cx {
    pub fn new() -> Cx { Cx { tys: HashMap::new(), funs: HashMap::new(), globals: vec![], gix: HashMap::new(), resolved: HashMap::new(), names: HashMap::new() } }

    pub fn ty(&mut self, t: Ty) -> Rc<TyInfo> {
        if let Some(x) = self.tys.get(&t) { return x.clone(); }
        let k = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => TyI::Bool,
                RigidTy::Char => TyI::Char,
                RigidTy::Int(i) => TyI::Int { bits: i.num_bytes() as u32 * 8, signed: true },
                RigidTy::Uint(u) => TyI::Int { bits: u.num_bytes() as u32 * 8, signed: false },
                RigidTy::Float(f) => TyI::Float(match f { FloatTy::F16 => 16, FloatTy::F32 => 32, FloatTy::F64 => 64, FloatTy::F128 => 128 }),
                RigidTy::Adt(def, args) => {
                    let kind = def.kind();
                    let mut variants = vec![];
                    let mut discr = vec![];
                    for v in def.variants() {
                        variants.push(v.fields().iter().map(|f| f.ty_with_args(&args)).collect::<Vec<_>>());
                        if kind == AdtKind::Enum {
                            let d = def.discriminant_for_variant(v.idx());
                            let ti = self.ty(d.ty);
                            discr.push(match &ti.k { TyI::Int { bits, signed: true } => sext(d.val as i128, *bits), _ => d.val as i128 });
                        }
                    }
                    let mut trans = None;
                    if kind != AdtKind::Enum {
                        let nz: Vec<usize> = (0..variants[0].len()).filter(|i| !self.is_zst(variants[0][*i])).collect();
                        if nz.len() == 1 { trans = Some(nz[0]); }
                    }
                    TyI::Adt { def, kind, variants, discr, trans, name: def.name().to_string() }
                }
                RigidTy::Str => TyI::Str,
                RigidTy::Array(e, n) => match n.eval_target_usize() { Ok(n) => TyI::Array(e, n), Err(_) => TyI::Other },
                RigidTy::Pat(b, _) => { let r = self.ty(b); self.tys.insert(t, r.clone()); return r; }
                RigidTy::Slice(e) => TyI::Slice(e),
                RigidTy::RawPtr(p, _) => TyI::Ptr(p),
                RigidTy::Ref(_, p, _) => TyI::Ptr(p),
                RigidTy::FnDef(d, a) => TyI::FnDef(d, a),
                RigidTy::FnPtr(_) => TyI::FnPtr,
                RigidTy::Closure(d, a) => {
                    let up = match a.0.last() {
                        Some(GenericArgKind::Type(tt)) => match tt.kind() { TyKind::RigidTy(RigidTy::Tuple(v)) => v, _ => vec![] },
                        _ => vec![],
                    };
                    TyI::Closure(d, a, up)
                }
                RigidTy::Tuple(v) => TyI::Tuple(v),
                RigidTy::Never => TyI::Never,
                _ => TyI::Other,
            },
            _ => TyI::Other,
        };
        let zst = match &k {
            TyI::FnDef(..) | TyI::Never => true,
            TyI::Slice(_) | TyI::Str | TyI::Other => false,
            TyI::Bool | TyI::Char | TyI::Int { .. } | TyI::Float(_) | TyI::Ptr(_) | TyI::FnPtr => false,
            TyI::Array(e, n) => *n == 0 || self.is_zst(*e),
            TyI::Tuple(v) => v.iter().all(|x| self.is_zst(*x)),
            TyI::Closure(_, _, v) => v.iter().all(|x| self.is_zst(*x)),
            TyI::Adt { variants, kind, .. } => if *kind == AdtKind::Enum {
                match t.layout() { Ok(l) => l.shape().size.bits() == 0, Err(_) => false }
            } else { variants[0].iter().all(|x| self.is_zst(*x)) },
        };
        let r = Rc::new(TyInfo { k, zst });
        self.tys.insert(t, r.clone());
        r
    }
    pub fn is_zst(&mut self, t: Ty) -> bool { self.ty(t).zst }
    /// the type whose representation t shares after flattening newtypes
    pub fn repr(&mut self, mut t: Ty) -> Ty {
        loop {
            let i = self.ty(t);
            match &i.k { TyI::Adt { variants, trans: Some(k), .. } => t = variants[0][*k], _ => return t }
        }
    }
    /// Some(true): a slice; Some(false): a struct that ends in one
    pub fn unsized_tail(&mut self, t: Ty) -> Option<bool> {
        let t = self.repr(t);
        let ti = self.ty(t);
        match &ti.k {
            TyI::Slice(_) | TyI::Str => Some(true),
            TyI::Adt { variants, kind, .. } if *kind == AdtKind::Struct => { let l = *variants[0].last()?; self.unsized_tail(l).map(|_| false) }
            _ => None,
        }
    }
    /// length of the array that becomes the slice tail when t is unsized
    pub fn tail_len(&mut self, t: Ty) -> Option<u64> {
        let t = self.repr(t);
        let ti = self.ty(t);
        match &ti.k {
            TyI::Array(_, n) => Some(*n),
            TyI::Adt { variants, kind, .. } if *kind == AdtKind::Struct => { let l = *variants[0].last()?; self.tail_len(l) }
            _ => None,
        }
    }
    pub fn same_repr(&mut self, a: Ty, b: Ty) -> bool {
        let (a, b) = (self.repr(a), self.repr(b));
        if a == b { return true; }
        let (x, y) = (self.ty(a), self.ty(b));
        if x.zst && y.zst { return true; }
        match (&x.k, &y.k) {
            (TyI::Array(e, n), TyI::Array(f, m)) => n == m && self.same_repr(*e, *f),
            (TyI::Slice(e), TyI::Slice(f)) => self.same_repr(*e, *f),
            (TyI::Ptr(_), TyI::Ptr(_)) => true,
            (TyI::Int { bits: a, .. }, TyI::Int { bits: b, .. }) => a == b,
            (TyI::Adt { variants: v, def: d1, .. }, TyI::Adt { variants: w, def: d2, .. }) => d1 == d2 && v.len() == w.len() && v.iter().zip(w).all(|(p, q)| p.len() == q.len() && p.iter().zip(q).all(|(r, s)| self.same_repr(*r, *s))),
            (TyI::Tuple(v), TyI::Tuple(w)) => v.len() == w.len() && v.iter().zip(w).all(|(p, q)| self.same_repr(*p, *q)),
            _ => false,
        }
    }
    pub fn name(&mut self, i: Instance) -> Rc<str> {
        if let Some(n) = self.names.get(&i) { return n.clone(); }
        let n: Rc<str> = Rc::from(i.name().as_str());
        self.names.insert(i, n.clone());
        n
    }
    pub fn resolve(&mut self, d: FnDef, a: &GenericArgs) -> Option<Instance> {
        let key = (d, a.0.clone());
        if let Some(x) = self.resolved.get(&key) { return *x; }
        let r = Instance::resolve(d, a).ok();
        self.resolved.insert(key, r);
        r
    }

    // ---- constants
    fn rd(bytes: &[Option<u8>], off: usize, n: usize) -> Option<u128> {
        let mut v: u128 = 0;
        for i in (0..n).rev() { v = (v << 8) | (*bytes.get(off + i)?)? as u128; }
        Some(v)
    }
    pub fn decode(&mut self, a: &Allocation, off: usize, t: Ty) -> Result<Val, String> {
        let ti = self.ty(t);
        if ti.zst { return Ok(Val::Unit); }
        let size = |t: Ty| -> Result<usize, String> { Ok(t.layout().map_err(|_| "layout".to_string())?.shape().size.bytes()) };
        match &ti.k {
            TyI::Bool => match Self::rd(&a.bytes, off, 1) { Some(x) => Ok(Val::C(cb(x != 0))), None => Ok(Val::Uninit) },
            TyI::Char => Ok(Self::rd(&a.bytes, off, 4).map_or(Val::Uninit, |x| Val::I(x as i128))),
            TyI::Int { bits, signed } => Ok(match Self::rd(&a.bytes, off, *bits as usize / 8) {
                Some(x) => Val::I(if *signed { sext(x as i128, *bits) } else { x as i128 }),
                None => Val::Uninit,
            }),
            TyI::Float(64) => Ok(Self::rd(&a.bytes, off, 8).map_or(Val::Uninit, |x| Val::F(cf(f64::from_bits(x as u64))))),
            TyI::Float(32) => Ok(Self::rd(&a.bytes, off, 4).map_or(Val::Uninit, |x| Val::F(cf(f32::from_bits(x as u32) as f64)))),
            TyI::Array(e, n) => {
                let s = size(*e)?;
                let mut v = vec![];
                for i in 0..*n { v.push(self.decode(a, off + i as usize * s, *e)?); }
                Ok(agg(0, v))
            }
            TyI::Ptr(p) => {
                let pi = self.ty(*p);
                let o = Self::rd(&a.bytes, off, 8);
                let prov = a.provenance.ptrs.iter().find(|(s, _)| *s == off);
                let prov = match prov { Some((_, p)) => p.0, None => return match o { Some(x) => Ok(Val::I(x as i128)), None => Ok(Val::Uninit) } };
                let o = o.unwrap_or(0) as usize;
                match &pi.k {
                    TyI::Slice(e) => {
                        let n = Self::rd(&a.bytes, off + 8, 8).ok_or("slice len")? as u64;
                        self.global(prov, o, *e, n)
                    }
                    TyI::Str => {
                        let n = Self::rd(&a.bytes, off + 8, 8).ok_or("str len")? as u64;
                        self.global(prov, o, Ty::unsigned_ty(UintTy::U8), n)
                    }
                    TyI::Other => Ok(Val::Opaque),
                    _ => self.global(prov, o, *p, u64::MAX),
                }
            }
            TyI::FnPtr => {
                let prov = a.provenance.ptrs.iter().find(|(s, _)| *s == off).ok_or("fn ptr")?.1;
                match GlobalAlloc::from(prov.0) { GlobalAlloc::Function(i) => Ok(Val::Fn(i)), _ => Err("fn ptr".into()) }
            }
            TyI::Tuple(v) => {
                let sh = t.layout().map_err(|_| "layout")?.shape();
                if let FieldsShape::Arbitrary { offsets } = sh.fields {
                    let mut r = vec![];
                    for (i, f) in v.iter().enumerate() { r.push(self.decode(a, off + offsets[i].bytes(), *f)?); }
                    return Ok(agg(0, r));
                }
                Err("tuple layout".into())
            }
            TyI::Closure(_, _, v) => {
                let sh = t.layout().map_err(|_| "layout")?.shape();
                if let FieldsShape::Arbitrary { offsets } = sh.fields {
                    let mut r = vec![];
                    for (i, f) in v.iter().enumerate() { r.push(self.decode(a, off + offsets[i].bytes(), *f)?); }
                    return Ok(agg(0, r));
                }
                Err("closure layout".into())
            }
            TyI::Adt { variants, kind, trans, .. } => {
                let sh = t.layout().map_err(|_| "layout")?.shape();
                if *kind == AdtKind::Union {
                    return match trans { Some(k) => self.decode(a, off, variants[0][*k]), None => Err("union constant".into()) };
                }
                if *kind == AdtKind::Struct {
                    if let FieldsShape::Arbitrary { offsets } = sh.fields {
                        if let Some(k) = trans { return self.decode(a, off + offsets[*k].bytes(), variants[0][*k]); }
                        let mut r = vec![];
                        for (i, f) in variants[0].iter().enumerate() { r.push(self.decode(a, off + offsets[i].bytes(), *f)?); }
                        return Ok(agg(0, r));
                    }
                    return Err("struct layout".into());
                }
                // enum
                let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Single { index } => (index.to_index(), match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), _ => vec![] }),
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants: vs } => {
                        let toff = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                        let prim = match tag { Scalar::Initialized { value, .. } => *value, Scalar::Union { value } => *value };
                        let tsz = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                        let is_ptr = a.provenance.ptrs.iter().any(|(s, _)| *s == off + toff);
                        let raw = Self::rd(&a.bytes, off + toff, tsz);
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let raw = match raw { Some(r) => r, None => return Ok(Val::Uninit) };
                                let m = mask(tsz as u32 * 8);
                                let ds = match &ti.k { TyI::Adt { discr, .. } => discr.clone(), _ => vec![] };
                                ds.iter().position(|d| (*d as u128) & m == raw & m).ok_or("bad tag")?
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if is_ptr { untagged_variant.to_index() } else {
                                    let raw = match raw { Some(r) => r, None => return Ok(Val::Uninit) };
                                    let m = mask(tsz as u32 * 8);
                                    let rel = raw.wrapping_sub(*niche_start) & m;
                                    let s = niche_variants.start().to_index();
                                    let e = niche_variants.end().to_index();
                                    if rel <= (e - s) as u128 { s + rel as usize } else { untagged_variant.to_index() }
                                }
                            }
                        };
                        (vi, vs[vi].offsets.iter().map(|o| o.bytes()).collect())
                    }
                    VariantsShape::Empty => return Err("empty enum".into()),
                };
                let mut r = vec![];
                for (i, f) in variants[vi].iter().enumerate() { r.push(if self.is_zst(*f) { Val::Unit } else { self.decode(a, off + offs[i], *f)? }); }
                Ok(agg(vi as u32, r))
            }
            _ => Err(format!("constant of type {:?}", t.kind())),
        }
    }
    fn global(&mut self, id: rustc_public::mir::alloc::AllocId, off: usize, t: Ty, n: u64) -> Result<Val, String> {
        let key = (GKey(id), off, t, n);
        if let Some(g) = self.gix.get(&key) {
            let path = if n == u64::MAX { vec![] } else { vec![Step::V(0, n)] };
            return Ok(ptr(Base::Glob(*g), path));
        }
        let al = match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(a) => a,
            GlobalAlloc::Static(s) => s.eval_initializer().map_err(|_| "static".to_string())?,
            _ => return Ok(Val::Opaque),
        };
        let v = if n == u64::MAX { self.decode(&al, off, t)? } else {
            let s = t.layout().map_err(|_| "layout")?.shape().size.bytes();
            let mut v = vec![];
            for i in 0..n { v.push(self.decode(&al, off + i as usize * s, t)?); }
            agg(0, v)
        };
        let g = self.globals.len();
        self.globals.push(v);
        self.gix.insert(key, g);
        let path = if n == u64::MAX { vec![] } else { vec![Step::V(0, n)] };
        Ok(ptr(Base::Glob(g), path))
    }

    // ---- lowering
    fn place(&mut self, p: &Place, locals: &[Ty]) -> Pl {
        let mut t = locals[p.local];
        let mut zst = self.is_zst(t);
        let mut proj = vec![];
        for e in &p.projection {
            if zst && !matches!(e, ProjectionElem::Deref) {
                // projections of zero-sized places stay zero-sized
                t = self.proj_ty(t, e);
                continue;
            }
            match e {
                ProjectionElem::Deref => { proj.push(Pj::Deref); t = self.proj_ty(t, e); }
                ProjectionElem::Field(i, ft) => {
                    let ti = self.ty(t);
                    let trans = match &ti.k { TyI::Adt { trans, .. } => *trans, _ => None };
                    if self.is_zst(*ft) { proj.push(Pj::Zst); }
                    else if trans == Some(*i) {}
                    else { match self.unsized_tail(*ft) { Some(slice) => proj.push(Pj::Tail(*i, slice)), None => proj.push(Pj::Field(*i)) } }
                    t = *ft;
                }
                ProjectionElem::Index(l) => { proj.push(Pj::Index(*l)); t = self.proj_ty(t, e); }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let len = match &self.ty(t).k { TyI::Array(_, n) => Some(*n), _ => None };
                    proj.push(Pj::ConstIdx { off: *offset, from_end: *from_end, len });
                    t = self.proj_ty(t, e);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let len = match &self.ty(t).k { TyI::Array(_, n) => Some(*n), _ => None };
                    proj.push(Pj::Sub { from: *from, to: *to, from_end: *from_end, len });
                    t = self.proj_ty(t, e);
                }
                ProjectionElem::Downcast(_) => {}
                ProjectionElem::OpaqueCast(x) => t = *x,
            }
            zst = self.is_zst(t);
        }
        Pl { local: p.local, proj, ty: t, zst }
    }
    fn proj_ty(&mut self, t: Ty, e: &ProjectionElem) -> Ty {
        match e {
            ProjectionElem::Field(_, f) => *f,
            ProjectionElem::OpaqueCast(x) => *x,
            ProjectionElem::Downcast(_) => t,
            ProjectionElem::Deref => match &self.ty(t).k { TyI::Ptr(p) => *p, _ => match t.kind().builtin_deref(true) { Some(x) => x.ty, None => t } },
            ProjectionElem::Index(_) | ProjectionElem::ConstantIndex { .. } => match &self.ty(t).k { TyI::Array(e, _) | TyI::Slice(e) => *e, _ => t },
            ProjectionElem::Subslice { from, to, from_end } => match &self.ty(t).k {
                TyI::Array(e, n) => { let k = if *from_end { n - from - to } else { to - from }; Ty::try_new_array(*e, k).unwrap_or(t) }
                _ => t,
            },
        }
    }
    pub fn constant(&mut self, c: &MirConst) -> Result<Val, String> {
        let t = c.ty();
        if self.is_zst(t) { return Ok(Val::Unit); }
        match c.kind() {
            ConstantKind::Allocated(a) => self.decode(a, 0, t),
            ConstantKind::ZeroSized => Ok(Val::Unit),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(vt, a) => self.decode(a, 0, *vt),
                TyConstKind::ZSTValue(_) => Ok(Val::Unit),
                _ => match tc.eval_target_usize() { Ok(n) => Ok(Val::I(n as i128)), Err(_) => Err("type constant".into()) },
            },
            k => Err(format!("constant {:?}", k)),
        }
    }
    fn operand(&mut self, o: &Operand, locals: &[Ty]) -> (Op, Ty) {
        match o {
            Operand::Copy(p) | Operand::Move(p) => { let p = self.place(p, locals); let t = p.ty; (Op::Copy(p), t) }
            Operand::Constant(c) => {
                let t = c.const_.ty();
                match self.constant(&c.const_) { Ok(v) => (Op::Const(v, t), t), Err(e) => (Op::Unsupported(e), t) }
            }
            Operand::RuntimeChecks(k) => (Op::Const(Val::C(cb(matches!(k, RuntimeChecks::OverflowChecks))), Ty::bool_ty()), Ty::bool_ty()),
        }
    }
    pub fn fun(&mut self, inst: Instance) -> Option<Rc<Fun>> {
        if let Some(f) = self.funs.get(&inst) { return f.clone(); }
        let r = inst.body().map(|b| Rc::new(self.lower(inst, &b)));
        self.funs.insert(inst, r.clone());
        r
    }
    fn lower(&mut self, inst: Instance, b: &Body) -> Fun {
        let locals: Vec<Ty> = b.locals().iter().map(|l| l.ty).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            let mut spans = vec![];
            for s in &bb.statements {
                let l = match &s.kind {
                    StatementKind::Assign(p, rv) => {
                        let pl = self.place(p, &locals);
                        if pl.zst && !matches!(rv, Rvalue::Use(..)) { St::Nop } else { let rv = self.rvalue(rv, &locals, &pl); St::Assign(pl, rv) }
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place, &locals); St::SetDiscr(p, variant_index.to_index() as u32) }
                    StatementKind::StorageLive(l) => St::Live(*l),
                    StatementKind::StorageDead(l) => St::Dead(*l),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let (s, sty) = self.operand(&c.src, &locals);
                        let (d, _) = self.operand(&c.dst, &locals);
                        let (n, _) = self.operand(&c.count, &locals);
                        let e = match &self.ty(sty).k { TyI::Ptr(p) => *p, _ => sty };
                        St::CopyNon(s, d, n, e)
                    }
                    _ => continue,
                };
                st.push(l);
                spans.push(s.source_info.span);
            }
            spans.push(bb.terminator.source_info.span);
            let te = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => Te::Goto(*target),
                TerminatorKind::SwitchInt { discr, targets } => { let (o, _) = self.operand(discr, &locals); Te::Switch(o, targets.branches().collect(), targets.otherwise()) }
                TerminatorKind::Return => Te::Return,
                TerminatorKind::Unreachable => Te::Unreachable,
                TerminatorKind::Resume | TerminatorKind::Abort => Te::Unreachable,
                TerminatorKind::Drop { place, target, .. } => { let p = self.place(place, &locals); Te::Drop(p, *target) }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let (fo, fty) = self.operand(func, &locals);
                    let fi = self.ty(fty);
                    let f = match &fi.k {
                        TyI::FnDef(d, a) => {
                            let rust_call = fty.kind().fn_sig().map_or(false, |s| matches!(s.value.abi, Abi::RustCall));
                            Callee::Direct(*d, a.clone(), rust_call)
                        }
                        _ => Callee::Indirect(fo, fty),
                    };
                    let mut ops = vec![];
                    let mut tys = vec![];
                    for a in args { let (o, t) = self.operand(a, &locals); ops.push(o); tys.push(t); }
                    Te::Call { f, args: ops, argtys: tys, dest: self.place(destination, &locals), target: *target }
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (c, _) = self.operand(cond, &locals);
                    Te::Assert { cond: c, expected: *expected, msg: msg.description().unwrap_or("assertion failed").to_string(), target: *target }
                }
                TerminatorKind::InlineAsm { .. } => Te::Unsupported("inline assembly".into()),
            };
            blocks.push(Blk { st, te, spans });
        }
        let n = blocks.len();
        let succ: Vec<Vec<usize>> = blocks.iter().map(|b| match &b.te {
            Te::Goto(t) | Te::Drop(_, t) | Te::Assert { target: t, .. } => vec![*t],
            Te::Switch(_, v, o) => v.iter().map(|x| x.1).chain(Some(*o)).collect(),
            Te::Call { target, .. } => target.iter().copied().collect(),
            _ => vec![],
        }).collect();
        // blocks from which Return is reachable
        let mut can_return: Vec<bool> = blocks.iter().map(|b| matches!(b.te, Te::Return)).collect();
        loop {
            let mut ch = false;
            for i in 0..n { if !can_return[i] && succ[i].iter().any(|s| can_return[*s]) { can_return[i] = true; ch = true; } }
            if !ch { break; }
        }
        let ipdom = ipdoms(n, &succ, &can_return, &blocks);
        let mut has_loop = false;
        {
            // a back edge in a DFS
            let mut color = vec![0u8; n];
            let mut stack = vec![(0usize, 0usize)];
            if n > 0 { color[0] = 1; }
            while let Some((b, i)) = stack.pop() {
                if i < succ[b].len() {
                    stack.push((b, i + 1));
                    let s = succ[b][i];
                    if color[s] == 1 { has_loop = true; }
                    if color[s] == 0 { color[s] = 1; stack.push((s, 0)); }
                } else { color[b] = 2; }
            }
        }
        let name = self.name(inst).to_string();
        let file = b.span.get_filename();
        let in_stroke = inst.def.krate().name == "stroke";
        let line = b.span.get_lines().start_line;
        Fun { inst, name, file, line, in_stroke, blocks, locals, nargs: b.arg_locals().len(), spread: b.spread_arg(), ipdom, can_return, has_loop }
    }
    fn rvalue(&mut self, rv: &Rvalue, locals: &[Ty], dst: &Pl) -> Rv {
        match rv {
            Rvalue::Use(o, _) => Rv::Use(self.operand(o, locals).0),
            Rvalue::CopyForDeref(p) => { let p = self.place(p, locals); Rv::Use(Op::Copy(p)) }
            Rvalue::Repeat(o, n) => match n.eval_target_usize() { Ok(n) => Rv::Repeat(self.operand(o, locals).0, n), Err(_) => Rv::Unsupported("repeat".into()) },
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) => Rv::Ref(self.place(p, locals)),
            Rvalue::Reborrow(_, _, p) => { let p = self.place(p, locals); Rv::Use(Op::Copy(p)) }
            Rvalue::BinaryOp(op, a, b) => { let (x, t) = self.operand(a, locals); let (y, _) = self.operand(b, locals); Rv::Bin(*op, x, y, t, false) }
            Rvalue::CheckedBinaryOp(op, a, b) => { let (x, t) = self.operand(a, locals); let (y, _) = self.operand(b, locals); Rv::Bin(*op, x, y, t, true) }
            Rvalue::UnaryOp(op, a) => { let (x, t) = self.operand(a, locals); Rv::Un(*op, x, t) }
            Rvalue::Cast(k, o, t) => { let (x, st) = self.operand(o, locals); Rv::Cast(k.clone(), x, st, *t) }
            Rvalue::Discriminant(p) => Rv::Discr(self.place(p, locals)),
            Rvalue::Len(p) => Rv::Len(self.place(p, locals)),
            Rvalue::ThreadLocalRef(_) => Rv::Unsupported("thread local".into()),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<(Op, Ty)> = ops.iter().map(|o| self.operand(o, locals)).collect();
                match k {
                    AggregateKind::Array(_) => Rv::Array(ops.into_iter().map(|x| x.0).collect()),
                    AggregateKind::Tuple | AggregateKind::Closure(..) => Rv::Agg(0, ops.into_iter().map(|x| x.0).collect()),
                    AggregateKind::Adt(_, v, _, _, active) => {
                        let ti = self.ty(dst.ty);
                        match &ti.k {
                            TyI::Adt { kind: AdtKind::Union, trans, variants, .. } => {
                                let f = active.unwrap_or(0);
                                if self.is_zst(variants[0][f]) { Rv::Carrier(None) }
                                else if *trans == Some(f) { Rv::Carrier(Some(ops[0].0.clone())) }
                                else { Rv::Unsupported("union".into()) }
                            }
                            TyI::Adt { trans: Some(k), .. } => Rv::Carrier(Some(ops[*k].0.clone())),
                            _ => Rv::Agg(v.to_index() as u32, ops.into_iter().map(|x| x.0).collect()),
                        }
                    }
                    AggregateKind::RawPtr(..) => Rv::RawPtr(ops[0].0.clone(), ops[1].0.clone()),
                    _ => Rv::Unsupported("coroutine".into()),
                }
            }
        }
    }
}
fn ipdoms(n: usize, succ: &[Vec<usize>], can: &[bool], blocks: &[Blk]) -> Vec<Option<usize>> {
    // post-dominator sets over blocks that can return; virtual exit = n
    let mut pd: Vec<Option<Vec<bool>>> = vec![None; n];
    for i in 0..n { if matches!(blocks[i].te, Te::Return) { let mut s = vec![false; n]; s[i] = true; pd[i] = Some(s); } }
    loop {
        let mut ch = false;
        for i in (0..n).rev() {
            if !can[i] || matches!(blocks[i].te, Te::Return) { continue; }
            let mut acc: Option<Vec<bool>> = None;
            for s in &succ[i] {
                if !can[*s] { continue; }
                if let Some(p) = &pd[*s] {
                    acc = Some(match acc { None => p.clone(), Some(a) => a.iter().zip(p).map(|(x, y)| *x && *y).collect() });
                }
            }
            if let Some(mut a) = acc { a[i] = true; if pd[i].as_ref() != Some(&a) { pd[i] = Some(a); ch = true; } }
        }
        if !ch { break; }
    }
    (0..n).map(|i| {
        let p = pd[i].as_ref()?;
        // nearest strict post-dominator: the one post-dominated by all the others
        let c: Vec<usize> = (0..n).filter(|j| *j != i && p[*j]).collect();
        c.iter().copied().find(|j| { let pj = pd[*j].as_ref().unwrap(); c.iter().all(|k| pj[*k]) })
    }).collect()
}
pub fn mask(bits: u32) -> u128 { if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 } }
pub fn sext(x: i128, bits: u32) -> i128 { if bits >= 128 { x } else { (x << (128 - bits)) >> (128 - bits) } }
