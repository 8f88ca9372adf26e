//! Translation of rustc's monomorphic MIR (rustc_public) into the engine's own compact form.
use crate::expr::*;
use crate::hooks::{self, Hook};
use crate::mem::Alloc;
use rustc_public::abi::*;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;
use std::rc::Rc;

pub const CONST_BASE: u32 = 0x4000_0000;
pub const FN_BASE: u32 = 0x6000_0000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cls { Z, S(u8), P, M }

pub struct TyI {
    pub ty: Ty,
    pub size: u64,
    pub align: u64,
    pub cls: Cls,
    pub sized: bool,
    pub shape: LayoutShape,
}

#[derive(Clone, Debug)]
pub enum PBase { Reg(u16), Pair(u16), Frame(u32) }
#[derive(Clone, Debug)]
pub enum POp {
    Off(u64),
    DynOff(u64),
    Deref,
    DerefFat,
    Index(LocalRef, u64),
    IdxEnd { off: u64, stride: u64, len: Option<u64> },
    Subslice { from: u64, to: u64, from_end: bool, stride: u64, len: Option<u64> },
}
#[derive(Clone, Copy, Debug)]
pub enum LocalRef { Reg(u16), Frame(u32) }
#[derive(Clone, Debug)]
pub struct PlaceIR { pub base: PBase, pub ops: Box<[POp]>, pub cls: Cls, pub size: u64 }

#[derive(Clone, Debug)]
pub enum Opnd { Pl(PlaceIR), C(V, u8), CP(V, V), CM(u64, u64), Z }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BOp { Add, Sub, Mul, Div, Rem, Xor, And, Or, Shl, Shr, Eq, Lt, Le, Ne, Ge, Gt, Cmp, Offset(u64) }

pub struct EnumI {
    pub size: u64,
    pub kind: EnumK,
    pub dw: u8, // width of the discriminant type
    pub discr: Vec<u128>, // variant index -> discriminant
}
pub enum EnumK {
    Single(usize),
    Direct { off: u64, sz: u8 },
    Niche { off: u64, sz: u8, untagged: usize, start: usize, end: usize, niche_start: u128 },
}

pub enum Rv {
    Use(Opnd),
    Bin { op: BOp, w: u8, signed: bool, a: Opnd, b: Opnd, bw: u8, fat: bool },
    Chk { op: BOp, w: u8, signed: bool, a: Opnd, b: Opnd, bw: u8, off1: u64 },
    Not(Opnd, u8, bool),
    Neg(Opnd, u8),
    PtrMeta(Opnd),
    CastInt { a: Opnd, from: u8, signed: bool, to: u8 },
    Thin(Opnd),
    Transmute(Opnd),
    UnsizeConst(Opnd, V),
    UnsizeStruct(Opnd, u64, V, u64), // ptr offset, meta, dst size
    Ref(PlaceIR),
    Discr(PlaceIR, Rc<EnumI>),
    Agg(Vec<(u64, Opnd)>, Option<(u64, u8, u128)>),
    RawPtr(Opnd, Opnd),
    Repeat(Opnd, u64, u64),
    Bad(String),
}
pub enum St {
    Assign(PlaceIR, Rv),
    SetDiscr(PlaceIR, Option<(u64, u8, u128)>),
    Assume(Opnd),
    Copy(Opnd, Opnd, Opnd, u64),
}
pub enum Callee { Fn(u32), Virt(u64), Ptr(Opnd) }
pub struct CallIR {
    pub callee: Callee,
    pub args: Vec<Opnd>,
    pub dest: PlaceIR,
    pub target: Option<u32>,
}
pub enum Tm {
    Goto(u32),
    Switch { op: Opnd, w: u8, targets: Vec<(u128, u32)>, other: u32 },
    Return,
    Unreachable,
    DropStatic { place: PlaceIR, f: u32, target: u32 },
    DropDyn { place: PlaceIR, target: u32 },
    Call(CallIR),
    Assert { cond: Opnd, expected: bool, msg: String, target: u32 },
    Stop(&'static str),
}
pub struct Bb { pub st: Vec<St>, pub tm: Tm, pub line: u32 }
#[derive(Clone, Copy, Debug)]
pub enum Store { Z, Reg(u16), Pair(u16), Mem(u32, u32) }
pub struct Code {
    pub name: String,
    pub bbs: Vec<Bb>,
    pub nregs: usize,
    pub frame: usize,
    pub locals: Vec<Store>, // storage per local
    pub cls: Vec<(Cls, u64)>,
    pub nargs: usize,
    pub spread: Option<(usize, Vec<u64>)>, // local, field offsets
    pub wto: std::cell::OnceCell<crate::join::Wto>,
    pub id: u32,
}

pub struct FnEntry {
    pub inst: Instance,
    pub name: String,     // full name with generics
    pub path: String,     // definition path without generics
    pub hook: Option<Hook>,
    pub code: Option<Rc<Code>>,
    pub failed: bool,
    pub gen_tys: Vec<Ty>,
    pub calls: u64,
    pub merge: Option<bool>,
}

pub struct Comp {
    pub tys: HashMap<Ty, Rc<TyI>>,
    pub fns: Vec<FnEntry>,
    pub fnmap: HashMap<Instance, u32>,
    pub allocs: HashMap<usize, u64>,
    pub statics: HashMap<String, u64>,
    pub mem: Vec<Rc<Alloc>>, // constant / static memory
    pub mutable: Vec<bool>,
    pub strs: HashMap<String, u64>,
    pub vtabs: HashMap<u64, ()>,
}

static mut COMP: Option<Comp> = None;
#[allow(static_mut_refs)]
pub fn cp() -> &'static mut Comp {
    unsafe {
        if COMP.is_none() {
            COMP = Some(Comp { tys: HashMap::new(), fns: vec![], fnmap: HashMap::new(), allocs: HashMap::new(), statics: HashMap::new(), mem: vec![], mutable: vec![], strs: HashMap::new(), vtabs: HashMap::new() });
        }
        COMP.as_mut().unwrap()
    }
}

pub fn tyi(ty: Ty) -> Rc<TyI> {
    if let Some(t) = cp().tys.get(&ty) { return t.clone(); }
    let shape = match ty.layout() { Ok(l) => l.shape(), Err(e) => panic!("layout of {ty:?}: {e:?}") };
    let sized = shape.is_sized();
    let size = shape.size.bytes() as u64;
    let kind = ty.kind();
    let cls = if sized && size == 0 { Cls::Z } else {
        match kind.rigid() {
            Some(RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Float(_) | RigidTy::FnPtr(_)) => Cls::S(size as u8),
            Some(RigidTy::RawPtr(..) | RigidTy::Ref(..)) => if size == 16 { Cls::P } else { Cls::S(8) },
            Some(RigidTy::Pat(..)) => match shape.value_repr { ValueRepr::Scalar(_) => Cls::S(size as u8), ValueRepr::ScalarPair { .. } if size == 16 => Cls::P, _ => Cls::M },
            Some(RigidTy::Never) => Cls::Z,
            _ => Cls::M,
        }
    };
    let t = Rc::new(TyI { ty, size, align: shape.abi_align as u64, cls, sized, shape });
    cp().tys.insert(ty, t.clone());
    t
}

pub fn scalar_size(s: &Scalar) -> u8 {
    let p = match s { Scalar::Initialized { value, .. } => *value, Scalar::Union { value } => *value };
    match p {
        Primitive::Int { length, .. } => (length.bits() / 8) as u8,
        Primitive::Float { length } => match length { FloatLength::F16 | FloatLength::F16B => 2, FloatLength::F32 => 4, FloatLength::F64 => 8, _ => 16 },
        Primitive::Pointer(_) => 8,
    }
}

pub fn field_off(ty: Ty, variant: Option<usize>, idx: usize) -> u64 {
    let t = tyi(ty);
    if let Some(v) = variant {
        if let VariantsShape::Multiple { variants, .. } = &t.shape.variants { return variants[v].offsets[idx].bytes() as u64; }
    }
    match &t.shape.fields {
        FieldsShape::Arbitrary { offsets } => offsets[idx].bytes() as u64,
        FieldsShape::Union(_) => 0,
        FieldsShape::Array { stride, .. } => stride.bytes() as u64 * idx as u64,
        FieldsShape::Primitive => 0,
    }
}

pub fn enum_info(ty: Ty) -> EnumI {
    let t = tyi(ty);
    let kind = ty.kind();
    let dty = kind.rigid().map(|r| r.discriminant_ty()).unwrap_or(Ty::usize_ty());
    let dw = (tyi(dty).size * 8) as u8;
    let discr: Vec<u128> = match kind.rigid() {
        Some(RigidTy::Adt(def, _)) if def.kind().is_enum() => (0..def.num_variants()).map(|i| def.discriminant_for_variant(VariantIdx::to_val(i)).val & mask(dw)).collect(),
        _ => (0..64).collect(),
    };
    let k = match &t.shape.variants {
        VariantsShape::Empty => EnumK::Single(0),
        VariantsShape::Single { index } => EnumK::Single(index.to_index()),
        VariantsShape::Multiple { tag, tag_encoding, tag_field, .. } => {
            let off = match &t.shape.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes() as u64, _ => 0 };
            let sz = scalar_size(tag);
            match tag_encoding {
                TagEncoding::Direct => EnumK::Direct { off, sz },
                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => EnumK::Niche {
                    off, sz, untagged: untagged_variant.to_index(), start: niche_variants.start().to_index(), end: niche_variants.end().to_index(), niche_start: *niche_start,
                },
            }
        }
    };
    EnumI { size: t.size, kind: k, dw, discr }
}
/// what to write to mark `variant` active
pub fn tag_write(ty: Ty, variant: usize) -> Option<(u64, u8, u128)> {
    let ei = enum_info(ty);
    match ei.kind {
        EnumK::Single(_) => None,
        EnumK::Direct { off, sz } => Some((off, sz, ei.discr[variant] & mask(sz * 8))),
        EnumK::Niche { off, sz, untagged, start, niche_start, .. } =>
            if variant == untagged { None } else { Some((off, sz, niche_start.wrapping_add((variant as u128).wrapping_sub(start as u128)) & mask(sz * 8))) },
    }
}

pub fn new_const(data: Vec<u8>, mutable: bool) -> u64 {
    let c = cp();
    let id = CONST_BASE + c.mem.len() as u32;
    c.mem.push(Rc::new(Alloc { data, sym: vec![] }));
    c.mutable.push(mutable);
    (id as u64) << 32
}
pub fn const_str(s: &str) -> u64 {
    if let Some(&a) = cp().strs.get(s) { return a; }
    let a = new_const(s.as_bytes().to_vec(), false);
    cp().strs.insert(s.to_string(), a);
    a
}
fn fill(addr: u64, a: &Allocation) {
    let mut data: Vec<u8> = a.bytes.iter().map(|b| b.unwrap_or(0)).collect();
    for (off, prov) in &a.provenance.ptrs {
        let o = *off as usize;
        let base = alloc_addr(prov.0);
        let rel = u64::from_le_bytes(data[o..o + 8].try_into().unwrap());
        data[o..o + 8].copy_from_slice(&base.wrapping_add(rel).to_le_bytes());
    }
    let id = (addr >> 32) as u32 - CONST_BASE;
    cp().mem[id as usize] = Rc::new(Alloc { data, sym: vec![] });
}
pub fn const_alloc(a: &Allocation) -> u64 {
    let addr = new_const(vec![0; a.bytes.len()], a.mutability == Mutability::Mut);
    fill(addr, a);
    addr
}
pub fn static_addr(def: StaticDef) -> u64 {
    let n = format!("{}#{}", def.name(), def.def_id().to_index());
    if let Some(&a) = cp().statics.get(&n) { return a; }
    let init = match def.eval_initializer() {
        Ok(i) => i,
        Err(_) => {
            // extern static: treat as zero
            let a = new_const(vec![0; 64], true);
            cp().statics.insert(n, a);
            return a;
        }
    };
    let addr = new_const(vec![0; init.bytes.len()], true);
    cp().statics.insert(n, addr);
    fill(addr, &init);
    addr
}
pub fn alloc_addr(id: AllocId) -> u64 {
    if let Some(&a) = cp().allocs.get(&id.to_index()) { return a; }
    let addr = match GlobalAlloc::from(id) {
        GlobalAlloc::Memory(a) => {
            let addr = new_const(vec![0; a.bytes.len()], a.mutability == Mutability::Mut);
            cp().allocs.insert(id.to_index(), addr);
            fill(addr, &a);
            return addr;
        }
        GlobalAlloc::Static(d) => static_addr(d),
        GlobalAlloc::Function(inst) => fn_addr(inst),
        g @ GlobalAlloc::VTable(..) => alloc_addr(g.vtable_allocation().expect("vtable")),
        GlobalAlloc::TypeId { .. } => 0,
    };
    cp().allocs.insert(id.to_index(), addr);
    addr
}
pub fn fn_addr(inst: Instance) -> u64 { ((FN_BASE as u64) << 32) + (fn_id(inst) as u64) * 16 }

pub fn fn_id(inst: Instance) -> u32 {
    if let Some(&i) = cp().fnmap.get(&inst) { return i; }
    let name = inst.name();
    let path = inst.def.name();
    let gen_tys: Vec<Ty> = inst.args().0.iter().filter_map(|g| g.ty().copied()).collect();
    let hook = hooks::lookup(&inst, &name, &path);
    let c = cp();
    let id = c.fns.len() as u32;
    c.fns.push(FnEntry { inst, name, path, hook, code: None, failed: false, gen_tys, calls: 0, merge: None });
    c.fnmap.insert(inst, id);
    id
}

pub fn code(id: u32) -> Result<Rc<Code>, String> {
    let f = &mut cp().fns[id as usize];
    if let Some(c) = &f.code { return Ok(c.clone()); }
    if f.failed { return Err(format!("no body: {}", f.name)); }
    let inst = f.inst;
    let Some(body) = inst.body() else {
        if let Some(c) = ctor(id, inst) {
            let c = Rc::new(c);
            cp().fns[id as usize].code = Some(c.clone());
            return Ok(c);
        }
        f.failed = true;
        return Err(format!("no body: {} [{}] {:?}", f.name, f.path, inst.kind));
    };
    let c = Rc::new(Cx::new(&body).run(id, cp().fns[id as usize].name.clone()));
    cp().fns[id as usize].code = Some(c.clone());
    Ok(c)
}

/// tuple-struct and tuple-variant constructors used as functions
fn ctor(id: u32, inst: Instance) -> Option<Code> {
    let ity = inst.ty();
    let k = ity.kind();
    let sig = k.fn_sig()?.skip_binder();
    let out = sig.output();
    let ok = out.kind();
    let Some(RigidTy::Adt(def, _)) = ok.rigid() else { return None };
    let name = cp().fns[id as usize].path.clone();
    let last = name.rsplit("::").next().unwrap().to_string();
    let vi = if def.kind().is_enum() { def.variants().iter().position(|v| v.name().to_string() == last)? } else { 0 };
    let v = def.variants()[vi];
    let fields = v.fields();
    if fields.len() != sig.inputs().len() { return None; }
    let mut c = Code { name: cp().fns[id as usize].name.clone(), bbs: vec![], nregs: 0, frame: 0, locals: vec![], cls: vec![], nargs: fields.len(), spread: None, wto: Default::default(), id };
    let mut parts = vec![];
    let mut tys = vec![out];
    tys.extend(sig.inputs().iter().copied());
    let mut ret = None;
    for (i, t) in tys.iter().enumerate() {
        let ti = tyi(*t);
        c.cls.push((ti.cls, ti.size));
        let (st, base) = match ti.cls {
            Cls::Z => (Store::Z, PBase::Frame(0)),
            Cls::S(_) => { c.nregs += 1; (Store::Reg(c.nregs as u16 - 1), PBase::Reg(c.nregs as u16 - 1)) }
            Cls::P => { c.nregs += 2; (Store::Pair(c.nregs as u16 - 2), PBase::Pair(c.nregs as u16 - 2)) }
            Cls::M => { let al = ti.align.max(1) as usize; c.frame = (c.frame + al - 1) / al * al; let o = c.frame as u32; c.frame += ti.size as usize; (Store::Mem(o, ti.size as u32), PBase::Frame(o)) }
        };
        c.locals.push(st);
        let p = PlaceIR { base, ops: Box::new([]), cls: ti.cls, size: ti.size };
        if i == 0 { ret = Some(p); } else if ti.cls != Cls::Z { parts.push((field_off(out, if def.kind().is_enum() { Some(vi) } else { None }, i - 1), Opnd::Pl(p))); }
    }
    let ret = ret.unwrap();
    let tag = if def.kind().is_enum() { tag_write(out, vi) } else { None };
    let st = if ret.cls == Cls::Z { vec![] } else { vec![St::Assign(ret, Rv::Agg(parts, tag))] };
    c.bbs.push(Bb { st, tm: Tm::Return, line: 0 });
    Some(c)
}

struct Cx<'a> { body: &'a Body, store: Vec<Store>, nregs: u16, frame: u32 }

fn spread_place(p: &Place, mem: &mut [bool]) {
    if !p.projection.is_empty() && !matches!(p.projection[0], ProjectionElem::Deref) { mem[p.local] = true; }
}
fn scan_op(o: &Operand, mem: &mut [bool]) { if let Operand::Copy(p) | Operand::Move(p) = o { spread_place(p, mem) } }
fn scan_addr(p: &Place, mem: &mut [bool]) {
    if p.projection.is_empty() || !matches!(p.projection[0], ProjectionElem::Deref) { mem[p.local] = true; }
}

impl<'a> Cx<'a> {
    fn new(body: &'a Body) -> Cx<'a> {
        let n = body.locals().len();
        let mut mem = vec![false; n];
        for bb in &body.blocks {
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, rv) => {
                        spread_place(p, &mut mem);
                        match rv {
                            Rvalue::AddressOf(_, q) | Rvalue::Ref(_, _, q) | Rvalue::Discriminant(q) | Rvalue::Reborrow(_, _, q) => scan_addr(q, &mut mem),
                            Rvalue::CopyForDeref(q) | Rvalue::Len(q) => spread_place(q, &mut mem),
                            Rvalue::Aggregate(_, ops) => for o in ops { scan_op(o, &mut mem) },
                            Rvalue::BinaryOp(_, a, b) | Rvalue::CheckedBinaryOp(_, a, b) => { scan_op(a, &mut mem); scan_op(b, &mut mem) }
                            Rvalue::Cast(_, a, _) | Rvalue::Repeat(a, _) | Rvalue::UnaryOp(_, a) | Rvalue::Use(a, _) => scan_op(a, &mut mem),
                            Rvalue::ThreadLocalRef(_) => {}
                        }
                    }
                    StatementKind::SetDiscriminant { place, .. } => scan_addr(place, &mut mem),
                    _ => {}
                }
            }
            match &bb.terminator.kind {
                TerminatorKind::Drop { place, .. } => scan_addr(place, &mut mem),
                TerminatorKind::Call { func, args, destination, .. } => {
                    scan_op(func, &mut mem);
                    for a in args { scan_op(a, &mut mem) }
                    spread_place(destination, &mut mem);
                }
                TerminatorKind::SwitchInt { discr, .. } => scan_op(discr, &mut mem),
                TerminatorKind::Assert { cond, .. } => scan_op(cond, &mut mem),
                _ => {}
            }
        }
        if let Some(l) = body.spread_arg() { mem[l] = true; }
        let mut cx = Cx { body, store: vec![], nregs: 0, frame: 0 };
        for (i, l) in body.locals().iter().enumerate() {
            let t = tyi(l.ty);
            let st = match (t.cls, mem[i]) {
                (Cls::Z, _) => Store::Z,
                (Cls::S(_), false) => { cx.nregs += 1; Store::Reg(cx.nregs - 1) }
                (Cls::P, false) => { cx.nregs += 2; Store::Pair(cx.nregs - 2) }
                _ => {
                    if t.size > 1 << 24 { panic!("huge local {:?}", l.ty) }
                    let al = t.align.max(1) as u32;
                    cx.frame = (cx.frame + al - 1) / al * al;
                    let o = cx.frame;
                    cx.frame += t.size as u32;
                    Store::Mem(o, t.size as u32)
                }
            };
            cx.store.push(st);
        }
        cx
    }
    fn run(mut self, id: u32, name: String) -> Code {
        let mut bbs = vec![];
        for bb in &self.body.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, rv) => {
                        let d = self.place(p);
                        if d.cls == Cls::Z { continue; }
                        let r = self.rvalue(rv, p);
                        st.push(St::Assign(d, r));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let ty = self.pty(place);
                        let d = self.place(place);
                        st.push(St::SetDiscr(d, tag_write(ty, variant_index.to_index())));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => {}
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        let t = self.oty(&c.src).kind().builtin_deref(true).unwrap().ty;
                        st.push(St::Copy(self.op(&c.src), self.op(&c.dst), self.op(&c.count), tyi(t).size));
                    }
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line as u32;
            let tm = self.term(&bb.terminator);
            bbs.push(Bb { st, tm, line });
        }
        let cls = self.body.locals().iter().map(|l| { let t = tyi(l.ty); (t.cls, t.size) }).collect();
        let spread = self.body.spread_arg().map(|l| {
            let ty = self.body.locals()[l].ty;
            let n = match ty.kind().rigid() { Some(RigidTy::Tuple(ts)) => ts.len(), _ => panic!("spread arg not a tuple") };
            (l, (0..n).map(|i| field_off(ty, None, i)).collect())
        });
        Code { name, bbs, nregs: self.nregs as usize, frame: self.frame as usize, locals: self.store, cls, nargs: self.body.arg_locals().len(), spread, wto: Default::default(), id }
    }
    fn pty(&self, p: &Place) -> Ty { p.ty(self.body.locals()).unwrap() }
    fn oty(&self, o: &Operand) -> Ty {
        match o { Operand::RuntimeChecks(_) => Ty::bool_ty(), _ => o.ty(self.body.locals()).unwrap() }
    }
    fn place(&mut self, p: &Place) -> PlaceIR {
        let mut ty = self.body.locals()[p.local].ty;
        let mut ops: Vec<POp> = vec![];
        let base = match self.store[p.local] {
            Store::Reg(r) => PBase::Reg(r),
            Store::Pair(r) => PBase::Pair(r),
            Store::Mem(o, _) => PBase::Frame(o),
            Store::Z => PBase::Frame(0),
        };
        let mut variant: Option<usize> = None;
        for (i, e) in p.projection.iter().enumerate() {
            match e {
                ProjectionElem::Deref => {
                    let t = tyi(ty);
                    let first_reg = i == 0 && !matches!(base, PBase::Frame(_));
                    if !first_reg { ops.push(if t.size == 16 { POp::DerefFat } else { POp::Deref }); } else { ops.push(POp::Off(0)); }
                    ty = ty.kind().builtin_deref(true).unwrap_or_else(|| panic!("deref of {ty:?}")).ty;
                }
                ProjectionElem::Field(f, fty) => {
                    let o = field_off(ty, variant.take(), *f);
                    let ft = *fty;
                    // a field of dynamic type needs its run-time alignment
                    let dynf = !tyi(ft).sized && matches!(tail(ft).kind().rigid(), Some(RigidTy::Dynamic(..)));
                    if dynf && o > 0 { ops.push(POp::DynOff(o)); } else if o > 0 { ops.push(POp::Off(o)); }
                    ty = ft;
                }
                ProjectionElem::Downcast(v) => variant = Some(v.to_index()),
                ProjectionElem::Index(l) => {
                    let (et, _) = elem(ty);
                    let lr = match self.store[*l] { Store::Reg(r) => LocalRef::Reg(r), Store::Mem(o, _) => LocalRef::Frame(o), _ => panic!("index local") };
                    ops.push(POp::Index(lr, tyi(et).size));
                    ty = et;
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let (et, n) = elem(ty);
                    let s = tyi(et).size;
                    if *from_end { ops.push(POp::IdxEnd { off: *offset, stride: s, len: n }); } else { ops.push(POp::Off(offset * s)); }
                    ty = et;
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let (et, n) = elem(ty);
                    ops.push(POp::Subslice { from: *from, to: *to, from_end: *from_end, stride: tyi(et).size, len: n });
                    if n.is_some() { let l = if *from_end { n.unwrap() - from - to } else { to - from }; ty = Ty::try_new_array(et, l).unwrap(); }
                }
                ProjectionElem::OpaqueCast(t) => ty = *t,
            }
        }
        // merge consecutive offsets
        let mut m: Vec<POp> = vec![];
        for o in ops {
            match (m.last_mut(), &o) { (Some(POp::Off(a)), POp::Off(b)) => *a += *b, _ => m.push(o) }
        }
        let t = tyi(ty);
        let _ = t.sized;
        PlaceIR { base, ops: m.into(), cls: if t.sized { t.cls } else { Cls::M }, size: t.size }
    }
    fn konst(&mut self, c: &MirConst) -> Opnd {
        let ty = c.ty();
        let t = tyi(ty);
        if t.cls == Cls::Z { return Opnd::Z; }
        match c.kind() {
            ConstantKind::Allocated(a) => const_opnd(a, ty),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(_, a) => const_opnd(a, ty),
                k => panic!("ty const {k:?}"),
            },
            ConstantKind::ZeroSized => Opnd::Z,
            k => panic!("const {k:?}"),
        }
    }
    fn op(&mut self, o: &Operand) -> Opnd {
        match o {
            Operand::Copy(p) | Operand::Move(p) => { let p = self.place(p); if p.cls == Cls::Z { Opnd::Z } else { Opnd::Pl(p) } }
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => Opnd::C(V::C(matches!(r, RuntimeChecks::OverflowChecks) as u128), 1),
        }
    }
    fn iw(&self, ty: Ty) -> (u8, bool) {
        let t = tyi(ty);
        let s = matches!(ty.kind().rigid(), Some(RigidTy::Int(_)));
        ((t.size * 8) as u8, s)
    }
    fn bop(&mut self, op: BinOp, a: &Operand) -> BOp {
        match op {
            BinOp::Add | BinOp::AddUnchecked => BOp::Add,
            BinOp::Sub | BinOp::SubUnchecked => BOp::Sub,
            BinOp::Mul | BinOp::MulUnchecked => BOp::Mul,
            BinOp::Div => BOp::Div, BinOp::Rem => BOp::Rem,
            BinOp::BitXor => BOp::Xor, BinOp::BitAnd => BOp::And, BinOp::BitOr => BOp::Or,
            BinOp::Shl | BinOp::ShlUnchecked => BOp::Shl, BinOp::Shr | BinOp::ShrUnchecked => BOp::Shr,
            BinOp::Eq => BOp::Eq, BinOp::Lt => BOp::Lt, BinOp::Le => BOp::Le, BinOp::Ne => BOp::Ne, BinOp::Ge => BOp::Ge, BinOp::Gt => BOp::Gt,
            BinOp::Cmp => BOp::Cmp,
            BinOp::Offset => BOp::Offset(tyi(self.oty(a).kind().builtin_deref(true).unwrap().ty).size),
        }
    }
    fn rvalue(&mut self, rv: &Rvalue, dest: &Place) -> Rv {
        match rv {
            Rvalue::Use(o, _) => Rv::Use(self.op(o)),
            Rvalue::CopyForDeref(p) => { let p = self.place(p); Rv::Use(Opnd::Pl(p)) }
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p) => {
                let (p2, reb) = (self.place(p), matches!(rv, Rvalue::Reborrow(..)));
                if reb { Rv::Use(Opnd::Pl(p2)) } else { Rv::Ref(p2) }
            }
            Rvalue::BinaryOp(op, a, b) => {
                let ta = self.oty(a);
                let fat = tyi(ta).cls == Cls::P;
                let (w, s) = self.iw(ta);
                let bw = self.iw(self.oty(b)).0;
                if matches!(ta.kind().rigid(), Some(RigidTy::Float(_))) { return Rv::Bad("float arithmetic".into()); }
                let o = self.bop(*op, a);
                Rv::Bin { op: o, w, signed: s, a: self.op(a), b: self.op(b), bw, fat }
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let ta = self.oty(a);
                let (w, s) = self.iw(ta);
                let bw = self.iw(self.oty(b)).0;
                let o = self.bop(*op, a);
                let off1 = field_off(self.pty(dest), None, 1);
                Rv::Chk { op: o, w, signed: s, a: self.op(a), b: self.op(b), bw, off1 }
            }
            Rvalue::UnaryOp(UnOp::Not, a) => { let t = self.oty(a); let (w, _) = self.iw(t); Rv::Not(self.op(a), w, t.kind().is_bool()) }
            Rvalue::UnaryOp(UnOp::Neg, a) => { let (w, _) = self.iw(self.oty(a)); Rv::Neg(self.op(a), w) }
            Rvalue::UnaryOp(UnOp::PtrMetadata, a) => Rv::PtrMeta(self.op(a)),
            Rvalue::Cast(k, a, ty) => {
                let from = self.oty(a);
                match k {
                    CastKind::IntToInt => {
                        let (fw, s) = self.iw(from);
                        let (tw, _) = self.iw(*ty);
                        Rv::CastInt { a: self.op(a), from: fw, signed: s, to: tw }
                    }
                    CastKind::PtrToPtr | CastKind::FnPtrToPtr | CastKind::PointerExposeAddress | CastKind::PointerWithExposedProvenance => {
                        let (f, t) = (tyi(from), tyi(*ty));
                        if f.size > t.size { Rv::Thin(self.op(a)) } else { Rv::Use(self.op(a)) }
                    }
                    CastKind::Transmute | CastKind::BoxDerefTransmute | CastKind::Subtype => Rv::Transmute(self.op(a)),
                    CastKind::PointerCoercion(pc) => match pc {
                        PointerCoercion::ReifyFnPointer(_) => {
                            let k = from.kind();
                            let (d, args) = k.fn_def().unwrap();
                            let i = Instance::resolve_for_fn_ptr(d, args).unwrap();
                            Rv::Use(Opnd::C(V::C(fn_addr(i) as u128), 8))
                        }
                        PointerCoercion::ClosureFnPointer(_) => match from.kind().rigid() {
                            Some(RigidTy::Closure(d, args)) => {
                                let i = Instance::resolve_closure(*d, args, ClosureKind::FnOnce).unwrap();
                                Rv::Use(Opnd::C(V::C(fn_addr(i) as u128), 8))
                            }
                            _ => Rv::Bad("closure fn pointer".into()),
                        },
                        PointerCoercion::UnsafeFnPointer | PointerCoercion::MutToConstPointer | PointerCoercion::ArrayToPointer => Rv::Use(self.op(a)),
                        PointerCoercion::Unsize => self.unsize(a, from, *ty),
                    },
                    _ => Rv::Bad(format!("cast {k:?}")),
                }
            }
            Rvalue::Discriminant(p) => { let ty = self.pty(p); let p = self.place(p); Rv::Discr(p, Rc::new(enum_info(ty))) }
            Rvalue::Len(p) => { let p = self.place(p); Rv::PtrMeta(Opnd::Pl(p)) }
            Rvalue::Repeat(o, n) => {
                let s = tyi(self.oty(o)).size;
                Rv::Repeat(self.op(o), n.eval_target_usize().unwrap(), s)
            }
            Rvalue::ThreadLocalRef(item) => {
                let d = StaticDef::try_from(*item).unwrap();
                Rv::Use(Opnd::C(V::C(static_addr(d) as u128), 8))
            }
            Rvalue::Aggregate(k, ops) => {
                let ty = self.pty(dest);
                let mut parts = vec![];
                let mut tag = None;
                match k {
                    AggregateKind::RawPtr(..) => {
                        let a = self.op(&ops[0]); let b = self.op(&ops[1]);
                        return if matches!(b, Opnd::Z) { Rv::Use(a) } else { Rv::RawPtr(a, b) };
                    }
                    AggregateKind::Array(et) => { let s = tyi(*et).size; for (i, o) in ops.iter().enumerate() { parts.push((i as u64 * s, self.op(o))); } }
                    AggregateKind::Adt(def, v, _, _, active) => {
                        if let Some(_f) = active { parts.push((0, self.op(&ops[0]))); } else {
                            let vi = v.to_index();
                            let is_enum = def.kind().is_enum();
                            for (i, o) in ops.iter().enumerate() { parts.push((field_off(ty, if is_enum { Some(vi) } else { None }, i), self.op(o))); }
                            if is_enum { tag = tag_write(ty, vi); }
                        }
                    }
                    _ => for (i, o) in ops.iter().enumerate() { parts.push((field_off(ty, None, i), self.op(o))); },
                }
                parts.retain(|p| !matches!(p.1, Opnd::Z));
                Rv::Agg(parts, tag)
            }
        }
    }
    fn unsize(&mut self, a: &Operand, from: Ty, to: Ty) -> Rv {
        // find the pointee pair
        fn pointee(t: Ty) -> Option<Ty> { t.kind().builtin_deref(true).map(|x| x.ty) }
        if let (Some(f), Some(t)) = (pointee(from), pointee(to)) {
            if !from.kind().is_box() {
                let m = self.unsize_meta(f, t);
                let src_fat = tyi(from).cls == Cls::P;
                return match m { Some(m) => if src_fat { Rv::Bad("unsize of wide pointer".into()) } else { Rv::UnsizeConst(self.op(a), m) }, None => Rv::Use(self.op(a)) };
            }
        }
        // smart pointers: descend to the pointer field
        let (mut f, mut t) = (from, to);
        let mut off = 0u64;
        loop {
            if let (Some(pf), Some(pt)) = (pointee(f), pointee(t)) {
                if !f.kind().is_box() {
                    let src = tyi(from).size; let dst = tyi(to).size;
                    return match self.unsize_meta(pf, pt) {
                        Some(m) if dst == src + 8 => Rv::UnsizeStruct(self.op(a), off, m, dst),
                        None if dst == src => Rv::Use(self.op(a)),
                        _ => Rv::Bad(format!("unsize {from:?} -> {to:?}")),
                    };
                }
            }
            let (RigidTy::Adt(d1, a1), RigidTy::Adt(_, a2)) = (match f.kind() { TyKind::RigidTy(r) => r, _ => panic!() }, match t.kind() { TyKind::RigidTy(r) => r, _ => panic!() }) else {
                if let (TyKind::RigidTy(RigidTy::Pat(x, _)), TyKind::RigidTy(RigidTy::Pat(y, _))) = (f.kind(), t.kind()) { f = x; t = y; continue; }
                return Rv::Bad(format!("unsize {from:?} -> {to:?}"))
            };
            let v = d1.variant(VariantIdx::to_val(0)).unwrap();
            let mut found = false;
            for (i, fd) in v.fields().iter().enumerate() {
                let (x, y) = (fd.ty_with_args(&a1), fd.ty_with_args(&a2));
                if tyi(x).size != 0 && x != y { off += field_off(f, None, i); f = x; t = y; found = true; break; }
            }
            if !found { return Rv::Bad(format!("unsize {from:?} -> {to:?}")); }
        }
    }
    /// metadata for unsizing a pointee; None when the metadata is unchanged
    fn unsize_meta(&mut self, f: Ty, t: Ty) -> Option<V> {
        let (f, t) = tails(f, t);
        match (f.kind().rigid().cloned(), t.kind().rigid().cloned()) {
            (Some(RigidTy::Array(_, n)), Some(RigidTy::Slice(_))) => Some(V::C(n.eval_target_usize().unwrap() as u128)),
            (Some(RigidTy::Dynamic(..)), Some(RigidTy::Dynamic(..))) => None,
            (_, Some(RigidTy::Dynamic(..))) => Some(V::C(vtable(f, t) as u128)),
            _ => panic!("unsize {f:?} -> {t:?}"),
        }
    }
    fn term(&mut self, t: &Terminator) -> Tm {
        match &t.kind {
            TerminatorKind::Goto { target } => Tm::Goto(*target as u32),
            TerminatorKind::SwitchInt { discr, targets } => {
                let (w, _) = self.iw(self.oty(discr));
                Tm::Switch { op: self.op(discr), w, targets: targets.branches().map(|(v, b)| (v, b as u32)).collect(), other: targets.otherwise() as u32 }
            }
            TerminatorKind::Return => Tm::Return,
            TerminatorKind::Unreachable => Tm::Unreachable,
            TerminatorKind::Resume => Tm::Stop("resume"),
            TerminatorKind::Abort => Tm::Stop("abort"),
            TerminatorKind::InlineAsm { .. } => Tm::Stop("inline assembly"),
            TerminatorKind::Drop { place, target, .. } => {
                let ty = self.pty(place);
                let p = self.place(place);
                if let Some(RigidTy::Dynamic(..)) = ty.kind().rigid() { return Tm::DropDyn { place: p, target: *target as u32 }; }
                let i = Instance::resolve_drop_in_place(ty);
                if i.is_empty_shim() { return Tm::Goto(*target as u32); }
                let f = fn_id(i);
                Tm::DropStatic { place: p, f, target: *target as u32 }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = msg.description().map(|s| s.to_string()).unwrap_or_else(|_| format!("{msg:?}"));
                Tm::Assert { cond: self.op(cond), expected: *expected, msg: m, target: *target as u32 }
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let fty = self.oty(func);
                let kind = fty.kind();
                let sig = kind.fn_sig().unwrap().skip_binder();
                let rustcall = sig.abi == Abi::RustCall;
                let mut a: Vec<Opnd> = vec![];
                let n = args.len();
                for (i, o) in args.iter().enumerate() {
                    if rustcall && i + 1 == n {
                        let tty = self.oty(o);
                        let Some(RigidTy::Tuple(ts)) = tty.kind().rigid().cloned() else { panic!("rust-call without tuple") };
                        let x = self.op(o);
                        for (k, et) in ts.iter().enumerate() {
                            let off = field_off(tty, None, k);
                            let ti = tyi(*et);
                            if ti.cls == Cls::Z { a.push(Opnd::Z); continue; }
                            a.push(match &x {
                                Opnd::Pl(p) => {
                                    let mut ops = p.ops.to_vec();
                                    ops.push(POp::Off(off));
                                    Opnd::Pl(PlaceIR { base: p.base.clone(), ops: ops.into(), cls: ti.cls, size: ti.size })
                                }
                                Opnd::CM(ad, _) => cm_opnd(ad + off, &ti),
                                _ => panic!("tuple operand"),
                            });
                        }
                    } else { a.push(self.op(o)); }
                }
                let dest = self.place(destination);
                let callee = match kind.rigid() {
                    Some(RigidTy::FnDef(d, ga)) => {
                        match Instance::resolve(*d, ga) {
                            Ok(i) => match i.kind {
                                InstanceKind::Virtual { idx } => Callee::Virt(idx as u64),
                                _ => Callee::Fn(fn_id(i)),
                            },
                            Err(e) => panic!("resolve: {e:?}"),
                        }
                    }
                    _ => Callee::Ptr(self.op(func)),
                };
                Tm::Call(CallIR { callee, args: a, dest, target: target.map(|t| t as u32) })
            }
        }
    }
}

pub fn cm_opnd(addr: u64, t: &TyI) -> Opnd {
    let id = (addr >> 32) as u32 - CONST_BASE;
    let o = addr as u32 as usize;
    let m = cp().mem[id as usize].clone();
    match t.cls {
        Cls::Z => Opnd::Z,
        Cls::S(n) => Opnd::C(m.load(o, n as usize), n),
        Cls::P => Opnd::CP(m.load(o, 8), m.load(o + 8, 8)),
        Cls::M => Opnd::CM(addr, t.size),
    }
}
fn const_opnd(a: &Allocation, ty: Ty) -> Opnd {
    let t = tyi(ty);
    let addr = const_alloc(a);
    cm_opnd(addr, &t)
}

pub fn elem(ty: Ty) -> (Ty, Option<u64>) {
    match ty.kind().rigid() {
        Some(RigidTy::Array(t, n)) => (*t, Some(n.eval_target_usize().unwrap())),
        Some(RigidTy::Slice(t)) => (*t, None),
        Some(RigidTy::Str) => (Ty::unsigned_ty(UintTy::U8), None),
        _ => panic!("elem of {ty:?}"),
    }
}
/// innermost unsized tail
pub fn tail(mut t: Ty) -> Ty {
    loop {
        let k = t.kind();
        match k.rigid() {
            Some(RigidTy::Adt(d, args)) if d.kind().is_struct() => {
                let v = d.variant(VariantIdx::to_val(0)).unwrap();
                match v.fields().last() { Some(f) => t = f.ty_with_args(args), None => return t }
            }
            Some(RigidTy::Tuple(ts)) if !ts.is_empty() => t = *ts.last().unwrap(),
            _ => return t,
        }
    }
}
fn tails(mut f: Ty, mut t: Ty) -> (Ty, Ty) {
    loop {
        match (f.kind().rigid().cloned(), t.kind().rigid().cloned()) {
            (Some(RigidTy::Adt(d1, a1)), Some(RigidTy::Adt(d2, a2))) if d1 == d2 && d1.kind().is_struct() => {
                let v = d1.variant(VariantIdx::to_val(0)).unwrap();
                match v.fields().last() { Some(x) => { f = x.ty_with_args(&a1); t = x.ty_with_args(&a2); } None => return (f, t) }
            }
            _ => return (f, t),
        }
    }
}
pub fn vtable(concrete: Ty, dynty: Ty) -> u64 {
    let k = dynty.kind();
    let principal = k.trait_principal();
    let g = GlobalAlloc::VTable(concrete, principal);
    alloc_addr(g.vtable_allocation().expect("vtable"))
}
