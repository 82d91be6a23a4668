//! Abstract values, global tables and type helpers.
use crate::lin::*;
use rustc_public::CrateDefType;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type OpqId = u32;
pub type CId = u32;
pub type HId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum V {
    Undef,
    Int(Lin),
    Pred(Con),
    Agg(Rc<Vec<V>>),
    Enum(Lin, Rc<Vec<Option<Rc<Vec<V>>>>>),
    Ref(Ptr),
    Seq(Rc<Vec<Seg>>),
    Opq(OpqId),
    Top,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Seg {
    El(V),
    Sub(CId, Lin, Lin),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Copy, PartialOrd, Ord)]
pub enum Base {
    Local(u32, u32),
    Heap(HId),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Pj {
    F(u32),
    Dc(u32),
    At(Lin),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Ptr {
    pub base: Base,
    pub path: Rc<Vec<Pj>>,
    /// slice window (lo, len) into the sequence pointed to
    pub meta: Option<(Lin, Lin)>,
}
impl Ptr {
    pub fn new(base: Base) -> Ptr {
        Ptr { base, path: Rc::new(vec![]), meta: None }
    }
    pub fn push(&self, p: Pj) -> Ptr {
        let mut v = (*self.path).clone();
        v.push(p);
        Ptr { base: self.base, path: Rc::new(v), meta: None }
    }
}

pub struct OpqInfo {
    pub ty: Ty,
    pub name: String,
    pub taint: bool,
    pub exp: Option<V>,
}
pub struct CInfo {
    pub ty: Option<Ty>,
    pub name: String,
    pub taint: bool,
    pub lit: Option<Rc<Vec<i128>>>,
    /// generic element: a representative value; constraints on it hold for every element
    pub rep: Option<V>,
}
#[derive(Default)]
pub struct Tables {
    pub opq: Vec<OpqInfo>,
    pub cont: Vec<CInfo>,
    pub reads: HashMap<(CId, Lin), V>,
    pub origin: HashMap<V, (CId, Lin)>,
    pub norigin: HashMap<CId, (CId, Lin)>,
    pub heap_init: Vec<V>,
    pub memo_sym: HashMap<String, Sym>,
    pub eqm: HashMap<(CId, CId), Vec<EqMemo>>,
    pub memo_c: HashMap<String, CId>,
    pub bytes_src: HashMap<CId, Vec<Seg>>,
    pub lits: HashMap<Vec<i128>, CId>,
    pub adt_cache: HashMap<Ty, Rc<AdtInfo>>,
    pub byte_tab: HashMap<CId, Vec<(Lin, Sym)>>,
}
thread_local! {
    pub static T: RefCell<Tables> = RefCell::new(Tables::default());
}

pub fn kint(k: i128) -> V {
    V::Int(Lin::k(k))
}
pub fn vbool(b: bool) -> V {
    kint(b as i128)
}
pub fn unit() -> V {
    V::Agg(Rc::new(vec![]))
}
pub fn agg(v: Vec<V>) -> V {
    V::Agg(Rc::new(v))
}
pub fn seq(v: Vec<Seg>) -> V {
    V::Seq(Rc::new(v))
}
pub fn isym(s: Sym) -> V {
    V::Int(Lin::s(s))
}
/// enum value with known variant (out of n)
pub fn variant(n: usize, v: usize, f: Vec<V>) -> V {
    let mut p = vec![None; n];
    p[v] = Some(Rc::new(f));
    V::Enum(Lin::k(v as i128), Rc::new(p))
}
pub fn none() -> V {
    variant(2, 0, vec![])
}
pub fn some(v: V) -> V {
    variant(2, 1, vec![v])
}
pub fn ok(v: V) -> V {
    variant(2, 0, vec![v])
}
pub fn err(v: V) -> V {
    variant(2, 1, vec![v])
}

// ---------------------------------------------------------------- types
pub struct AdtInfo {
    pub kind: AdtK,
    pub variants: Vec<Vec<(String, Ty)>>,
    pub vnames: Vec<String>,
    pub discr: Vec<i128>,
    pub name: String,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum AdtK {
    Struct,
    Enum,
    Seq,
    Atomic,
    Boxed,
}
pub fn rigid(ty: Ty) -> Option<RigidTy> {
    match ty.kind() {
        TyKind::RigidTy(r) => Some(r),
        _ => None,
    }
}
pub fn adt_info(ty: Ty) -> Option<Rc<AdtInfo>> {
    if let Some(i) = T.with(|t| t.borrow().adt_cache.get(&ty).cloned()) {
        return Some(i);
    }
    let Some(RigidTy::Adt(def, args)) = rigid(ty) else { return None };
    let name = def.name().to_string();
    let mut kind = match def.kind() {
        AdtKind::Struct => AdtK::Struct,
        AdtKind::Enum => AdtK::Enum,
        AdtKind::Union => AdtK::Atomic,
    };
    if is_seq_name(&name) {
        kind = AdtK::Seq;
    } else if def.is_box() {
        kind = AdtK::Boxed;
    } else if is_atomic_name(&name) {
        kind = AdtK::Atomic;
    }
    let mut variants = vec![];
    let mut vnames = vec![];
    let mut discr = vec![];
    if matches!(kind, AdtK::Struct | AdtK::Enum) {
        for v in def.variants_iter() {
            variants.push(v.fields().iter().map(|f| (f.name.to_string(), f.ty_with_args(&args))).collect());
            vnames.push(v.name().to_string());
            if kind == AdtK::Enum {
                let d = def.discriminant_for_variant(v.idx());
                discr.push(sign_discr(d.val, d.ty));
            } else {
                discr.push(0);
            }
        }
    }
    let i = Rc::new(AdtInfo { kind, variants, vnames, discr, name });
    T.with(|t| t.borrow_mut().adt_cache.insert(ty, i.clone()));
    Some(i)
}
fn sign_discr(v: u128, ty: Ty) -> i128 {
    match rigid(ty) {
        Some(RigidTy::Int(t)) => {
            let bits = t.num_bytes() as u32 * 8;
            if bits < 128 && v >> (bits - 1) & 1 == 1 {
                v as i128 - (1i128 << bits)
            } else {
                v as i128
            }
        }
        _ => v as i128,
    }
}
pub fn is_seq_name(n: &str) -> bool {
    matches!(
        n,
        "std::vec::Vec" | "alloc::vec::Vec" | "std::string::String" | "alloc::string::String" | "std::collections::VecDeque" | "alloc::collections::vec_deque::VecDeque" | "std::collections::vec_deque::VecDeque"
    )
}
fn is_atomic_name(n: &str) -> bool {
    if n.ends_with("ErrorKind") {
        return false;
    }
    n.starts_with("std::io::") && !n.contains("Chain")
        || n.starts_with("alloc::io::")
        || n.starts_with("core::io::")
        || n.starts_with("std::fs::")
        || n.starts_with("std::path::")
        || n.starts_with("std::ffi::")
        || n.starts_with("std::fmt::")
        || n.starts_with("core::fmt::")
        || n.starts_with("std::time::")
        || n.starts_with("std::sync::")
        || n.starts_with("std::sys::")
        || n.starts_with("termion::raw")
        || n.starts_with("termion::input")
        || n.starts_with("std::collections::Hash")
        || n.starts_with("std::collections::BTree")
}
pub fn int_bounds(ty: Ty) -> Option<(Option<i128>, Option<i128>)> {
    match rigid(ty)? {
        RigidTy::Bool => Some((Some(0), Some(1))),
        RigidTy::Char => Some((Some(0), Some(0x10FFFF))),
        RigidTy::Uint(u) => Some((
            Some(0),
            match u {
                UintTy::U8 => Some(u8::MAX as i128),
                UintTy::U16 => Some(u16::MAX as i128),
                UintTy::U32 => Some(u32::MAX as i128),
                _ => None,
            },
        )),
        RigidTy::Int(u) => Some(match u {
            IntTy::I8 => (Some(i8::MIN as i128), Some(i8::MAX as i128)),
            IntTy::I16 => (Some(i16::MIN as i128), Some(i16::MAX as i128)),
            IntTy::I32 => (Some(i32::MIN as i128), Some(i32::MAX as i128)),
            _ => (None, None),
        }),
        _ => None,
    }
}
/// 64-bit (or wider) integers are treated as unbounded upwards
pub fn is_wide(ty: Ty) -> bool {
    matches!(
        rigid(ty),
        Some(RigidTy::Uint(UintTy::Usize | UintTy::U64 | UintTy::U128)) | Some(RigidTy::Int(IntTy::Isize | IntTy::I64 | IntTy::I128))
    )
}
pub fn is_unsigned(ty: Ty) -> bool {
    matches!(rigid(ty), Some(RigidTy::Uint(_) | RigidTy::Bool | RigidTy::Char))
}
/// element type of a sequence-like type
pub fn seq_elem(ty: Ty) -> Option<Ty> {
    match rigid(ty)? {
        RigidTy::Slice(t) => Some(t),
        RigidTy::Array(t, _) => Some(t),
        RigidTy::Str => Some(Ty::from_rigid_kind(RigidTy::Char)),
        RigidTy::Adt(def, args) => {
            let n = def.name().to_string();
            if !is_seq_name(&n) {
                return None;
            }
            if n.ends_with("String") {
                return Some(Ty::from_rigid_kind(RigidTy::Char));
            }
            match args.0.first() {
                Some(GenericArgKind::Type(t)) => Some(*t),
                _ => None,
            }
        }
        _ => None,
    }
}
pub fn pointee(ty: Ty) -> Option<Ty> {
    match rigid(ty)? {
        RigidTy::Ref(_, t, _) => Some(t),
        RigidTy::RawPtr(t, _) => Some(t),
        RigidTy::Adt(def, args) if def.is_box() => match args.0.first() {
            Some(GenericArgKind::Type(t)) => Some(*t),
            _ => None,
        },
        _ => None,
    }
}
pub fn is_unsized_seq(ty: Ty) -> bool {
    matches!(rigid(ty), Some(RigidTy::Slice(_) | RigidTy::Str))
}
pub fn ty_name(ty: Ty) -> String {
    format!("{}", TyD(ty))
}
struct TyD(Ty);
impl std::fmt::Display for TyD {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match rigid(self.0) {
            Some(RigidTy::Adt(d, _)) => write!(f, "{}", d.name()),
            Some(RigidTy::Ref(_, t, _)) => write!(f, "&{}", TyD(t)),
            Some(RigidTy::Char) => write!(f, "char"),
            Some(RigidTy::Bool) => write!(f, "bool"),
            Some(RigidTy::Str) => write!(f, "str"),
            Some(RigidTy::Slice(t)) => write!(f, "[{}]", TyD(t)),
            Some(RigidTy::Uint(u)) => write!(f, "{:?}", u),
            Some(RigidTy::Int(u)) => write!(f, "{:?}", u),
            Some(RigidTy::Tuple(ts)) => write!(f, "tuple{}", ts.len()),
            Some(RigidTy::Closure(d, _)) => write!(f, "closure {}", d.name()),
            _ => write!(f, "?"),
        }
    }
}

// ---------------------------------------------------------------- fresh values
pub fn new_content(ty: Option<Ty>, name: &str, taint: bool) -> CId {
    T.with(|t| {
        let mut t = t.borrow_mut();
        t.cont.push(CInfo { ty, name: name.to_string(), taint, lit: None, rep: None });
        (t.cont.len() - 1) as CId
    })
}
pub fn lit_content(ty: Ty, v: Vec<i128>) -> CId {
    if let Some(c) = T.with(|t| t.borrow().lits.get(&v).cloned()) {
        return c;
    }
    let c = new_content(Some(ty), "lit", false);
    T.with(|t| {
        let mut t = t.borrow_mut();
        t.cont[c as usize].lit = Some(Rc::new(v.clone()));
        t.lits.insert(v, c);
    });
    c
}
pub fn cont_ty(c: CId) -> Option<Ty> {
    T.with(|t| t.borrow().cont[c as usize].ty)
}
pub fn cont_taint(c: CId) -> bool {
    T.with(|t| t.borrow().cont[c as usize].taint)
}
pub fn cont_name(c: CId) -> String {
    T.with(|t| t.borrow().cont[c as usize].name.clone())
}
pub fn cont_rep(c: CId) -> Option<V> {
    let (rep, ty, lit, taint) = T.with(|t| {
        let t = t.borrow();
        let i = &t.cont[c as usize];
        (i.rep.clone(), i.ty, i.lit.is_some(), i.taint)
    });
    if rep.is_some() || lit {
        return rep;
    }
    let ty = ty?;
    let v = fresh_val(ty, "rep", taint);
    T.with(|t| t.borrow_mut().cont[c as usize].rep = Some(v.clone()));
    Some(v)
}
pub fn new_opq(ty: Ty, name: &str, taint: bool) -> V {
    T.with(|t| {
        let mut t = t.borrow_mut();
        t.opq.push(OpqInfo { ty, name: name.to_string(), taint, exp: None });
        V::Opq((t.opq.len() - 1) as OpqId)
    })
}
pub fn opq_ty(o: OpqId) -> Ty {
    T.with(|t| t.borrow().opq[o as usize].ty)
}
pub fn opq_taint(o: OpqId) -> bool {
    T.with(|t| t.borrow().opq[o as usize].taint)
}
pub fn new_heap(init: V) -> HId {
    T.with(|t| {
        let mut t = t.borrow_mut();
        t.heap_init.push(init);
        (t.heap_init.len() - 1) as HId
    })
}
pub fn heap_init(h: HId) -> V {
    T.with(|t| t.borrow().heap_init.get(h as usize).cloned().unwrap_or(V::Top))
}
/// an arbitrary value of the given type
pub fn fresh_val(ty: Ty, name: &str, taint: bool) -> V {
    if let Some((lo, hi)) = int_bounds(ty) {
        return isym(fresh(lo, hi, taint, name));
    }
    match rigid(ty) {
        Some(RigidTy::Tuple(ts)) => agg(ts.iter().enumerate().map(|(i, t)| fresh_val(*t, &format!("{}.{}", name, i), taint)).collect()),
        Some(RigidTy::Array(t, n)) => {
            let n = n.eval_target_usize().unwrap_or(0);
            if n <= 8 {
                seq((0..n).map(|_| Seg::El(fresh_val(t, name, taint))).collect())
            } else {
                let c = new_content(Some(t), name, taint);
                seq(vec![Seg::Sub(c, Lin::k(0), Lin::k(n as i128))])
            }
        }
        Some(RigidTy::FnDef(..)) | Some(RigidTy::Never) => unit(),
        Some(RigidTy::Closure(_, _)) => new_opq(ty, name, taint),
        Some(RigidTy::Adt(_, _)) => {
            let i = adt_info(ty).unwrap();
            match i.kind {
                AdtK::Seq => fresh_seq(seq_elem(ty), name, taint),
                AdtK::Struct => agg(i.variants[0].iter().map(|(n, t)| fresh_val(*t, &format!("{}.{}", name, n), taint)).collect()),
                AdtK::Enum => {
                    if i.variants.is_empty() {
                        return V::Undef;
                    }
                    let d = if i.variants.len() == 1 { Lin::k(0) } else { Lin::s(fresh(Some(0), Some(i.variants.len() as i128 - 1), taint, &format!("{}.disc", name))) };
                    let p = i
                        .variants
                        .iter()
                        .map(|fs| Some(Rc::new(fs.iter().map(|(n, t)| fresh_val(*t, &format!("{}.{}", name, n), taint)).collect::<Vec<_>>())))
                        .collect();
                    V::Enum(d, Rc::new(p))
                }
                AdtK::Atomic | AdtK::Boxed => new_opq(ty, name, taint),
            }
        }
        _ => new_opq(ty, name, taint),
    }
}
pub fn fresh_seq(elem: Option<Ty>, name: &str, taint: bool) -> V {
    let c = new_content(elem, name, taint);
    let n = fresh(Some(0), None, taint, &format!("{}.len", name));
    seq(vec![Seg::Sub(c, Lin::k(0), Lin::s(n))])
}
/// expand a lazily opaque reference / box
pub fn expand(o: OpqId) -> Option<V> {
    let (ty, exp, name, taint) = T.with(|t| {
        let t = t.borrow();
        let i = &t.opq[o as usize];
        (i.ty, i.exp.clone(), i.name.clone(), i.taint)
    });
    if exp.is_some() {
        return exp;
    }
    let p = pointee(ty)?;
    let v = if is_unsized_seq(p) {
        let s = fresh_seq(seq_elem(p), &name, taint);
        let n = seq_len(match &s {
            V::Seq(s) => s,
            _ => unreachable!(),
        });
        let h = new_heap(s);
        V::Ref(Ptr { base: Base::Heap(h), path: Rc::new(vec![]), meta: Some((Lin::k(0), n)) })
    } else {
        match rigid(p) {
            Some(RigidTy::Dynamic(..)) => return None,
            _ => {}
        }
        let init = fresh_val(p, &format!("*{}", name), taint);
        let h = new_heap(init);
        V::Ref(Ptr::new(Base::Heap(h)))
    };
    T.with(|t| t.borrow_mut().opq[o as usize].exp = Some(v.clone()));
    Some(v)
}
pub fn seg_len(s: &Seg) -> Lin {
    match s {
        Seg::El(_) => Lin::k(1),
        Seg::Sub(_, a, b) => b.sub(a),
    }
}
pub fn seq_len(s: &[Seg]) -> Lin {
    let mut l = Lin::k(0);
    for x in s {
        l = l.add(&seg_len(x));
    }
    l
}
pub fn memo_sym(key: String, lo: Option<i128>, hi: Option<i128>, taint: bool, name: &str) -> (Sym, bool) {
    if let Some(s) = T.with(|t| t.borrow().memo_sym.get(&key).cloned()) {
        return (s, false);
    }
    let s = fresh(lo, hi, taint, name);
    T.with(|t| t.borrow_mut().memo_sym.insert(key, s));
    (s, true)
}
/// element `idx` of content `c` (deterministic)
pub fn read_content(c: CId, idx: &Lin) -> V {
    if let Some(l) = T.with(|t| t.borrow().cont[c as usize].lit.clone()) {
        if let Some(k) = idx.is_const() {
            if k >= 0 && (k as usize) < l.len() {
                return kint(l[k as usize]);
            }
        }
    }
    if let Some(v) = T.with(|t| t.borrow().reads.get(&(c, idx.clone())).cloned()) {
        return v;
    }
    let (ty, name, taint) = T.with(|t| {
        let t = t.borrow();
        let i = &t.cont[c as usize];
        (i.ty, i.name.clone(), i.taint)
    });
    let v = match ty {
        None => V::Top,
        Some(ty) => fresh_val(ty, &format!("{}[]", name), taint),
    };
    T.with(|t| {
        let mut t = t.borrow_mut();
        t.reads.insert((c, idx.clone()), v.clone());
        if !matches!(&v, V::Top | V::Undef) && !is_ground(&v) {
            t.origin.insert(v.clone(), (c, idx.clone()));
        }
        let mut nested = vec![];
        walk(&v, &mut |i| {
            if let Item::Cont(n) = i {
                nested.push(n);
            }
        });
        for n in nested {
            t.norigin.insert(n, (c, idx.clone()));
        }
    });
    v
}
/// the element (content and index) a nested content belongs to
pub fn norigin(c: CId) -> Option<(CId, Lin)> {
    T.with(|t| t.borrow().norigin.get(&c).cloned())
}
fn is_ground(v: &V) -> bool {
    match v {
        V::Int(l) => l.is_const().is_some(),
        V::Agg(a) => a.iter().all(is_ground),
        _ => false,
    }
}
pub fn origin(v: &V) -> Option<(CId, Lin)> {
    T.with(|t| t.borrow().origin.get(v).cloned())
}

// ---------------------------------------------------------------- generic traversal
/// visit every linear expression, content and pointer
pub fn walk(v: &V, f: &mut dyn FnMut(Item)) {
    match v {
        V::Undef | V::Top => {}
        V::Opq(o) => f(Item::Opq(*o)),
        V::Int(l) => f(Item::Lin(l)),
        V::Pred(c) => f(Item::Lin(&c.l)),
        V::Agg(a) => a.iter().for_each(|x| walk(x, f)),
        V::Enum(d, p) => {
            f(Item::Lin(d));
            for (i, x) in p.iter().enumerate() {
                if let Some(k) = d.is_const() {
                    if k != i as i128 {
                        continue;
                    }
                }
                if let Some(x) = x {
                    x.iter().for_each(|y| walk(y, f));
                }
            }
        }
        V::Ref(p) => {
            f(Item::Ptr(p));
            for j in p.path.iter() {
                if let Pj::At(l) = j {
                    f(Item::Lin(l));
                }
            }
            if let Some((a, b)) = &p.meta {
                f(Item::Lin(a));
                f(Item::Lin(b));
            }
        }
        V::Seq(s) => {
            for x in s.iter() {
                match x {
                    Seg::El(v) => walk(v, f),
                    Seg::Sub(c, a, b) => {
                        f(Item::Cont(*c));
                        f(Item::Lin(a));
                        f(Item::Lin(b));
                    }
                }
            }
        }
    }
}
pub enum Item<'a> {
    Lin(&'a Lin),
    Cont(CId),
    Ptr(&'a Ptr),
    Opq(OpqId),
}
/// rewrite every linear expression
pub fn map_lin(v: &V, f: &mut dyn FnMut(&Lin) -> Lin) -> V {
    match v {
        V::Undef | V::Top | V::Opq(_) => v.clone(),
        V::Int(l) => V::Int(f(l)),
        V::Pred(c) => {
            let c2 = Con { l: f(&c.l), r: c.r }.norm();
            match c2.triv() {
                Some(b) => vbool(b),
                None => V::Pred(c2),
            }
        }
        V::Agg(a) => {
            if a.is_empty() {
                return v.clone();
            }
            V::Agg(Rc::new(a.iter().map(|x| map_lin(x, f)).collect()))
        }
        V::Enum(d, p) => {
            let d = f(d);
            let k = d.is_const();
            V::Enum(
                d,
                Rc::new(
                    p.iter()
                        .enumerate()
                        .map(|(i, x)| match x {
                            Some(_) if k.map_or(false, |k| k != i as i128) => None,
                            Some(x) if x.is_empty() => Some(x.clone()),
                            Some(x) => Some(Rc::new(x.iter().map(|y| map_lin(y, f)).collect())),
                            None => None,
                        })
                        .collect(),
                ),
            )
        }
        V::Ref(p) => V::Ref(map_ptr(p, f)),
        V::Seq(s) => V::Seq(Rc::new(map_segs(s, f))),
    }
}
pub fn map_ptr(p: &Ptr, f: &mut dyn FnMut(&Lin) -> Lin) -> Ptr {
    let path = if p.path.iter().any(|j| matches!(j, Pj::At(_))) {
        Rc::new(
            p.path
                .iter()
                .map(|j| match j {
                    Pj::At(l) => Pj::At(f(l)),
                    o => o.clone(),
                })
                .collect(),
        )
    } else {
        p.path.clone()
    };
    Ptr { base: p.base, path, meta: p.meta.as_ref().map(|(a, b)| (f(a), f(b))) }
}
pub fn map_segs(s: &[Seg], f: &mut dyn FnMut(&Lin) -> Lin) -> Vec<Seg> {
    s.iter()
        .map(|x| match x {
            Seg::El(v) => Seg::El(map_lin(v, f)),
            Seg::Sub(c, a, b) => Seg::Sub(*c, f(a), f(b)),
        })
        .collect()
}
pub fn has_taint(v: &V) -> bool {
    let mut t = matches!(v, V::Top);
    if t {
        return true;
    }
    match v {
        V::Agg(a) => {
            if a.iter().any(has_taint) {
                return true;
            }
        }
        _ => {}
    }
    walk(v, &mut |i| match i {
        Item::Lin(l) => t |= lin_taint(l),
        Item::Cont(c) => t |= cont_taint(c),
        Item::Opq(o) => t |= opq_taint(o),
        _ => {}
    });
    t
}
pub fn lin_taint(l: &Lin) -> bool {
    l.t.iter().any(|p| sym_taint(p.0))
}

pub fn show(v: &V) -> String {
    match v {
        V::Undef => "_".into(),
        V::Top => "TOP".into(),
        V::Int(l) => l.show(),
        V::Pred(c) => format!("<{}>", c.show()),
        V::Agg(a) => format!("({})", a.iter().map(show).collect::<Vec<_>>().join(", ")),
        V::Enum(d, p) => {
            let mut s = format!("enum[{}]", d.show());
            for (i, x) in p.iter().enumerate() {
                if let Some(k) = d.is_const() {
                    if k != i as i128 {
                        continue;
                    }
                }
                if let Some(x) = x {
                    if !x.is_empty() && p.len() < 6 {
                        s += &format!("{{{}:{}}}", i, x.iter().map(show).collect::<Vec<_>>().join(", "));
                    }
                }
            }
            s
        }
        V::Ref(p) => show_ptr(p),
        V::Seq(s) => format!("[{}]", s.iter().map(show_seg).collect::<Vec<_>>().join(" ")),
        V::Opq(o) => format!("opq{}:{}", o, T.with(|t| t.borrow().opq[*o as usize].name.clone())),
    }
}
pub fn show_ptr(p: &Ptr) -> String {
    let mut s = match p.base {
        Base::Local(d, l) => format!("&L{}.{}", d, l),
        Base::Heap(h) => format!("&H{}", h),
    };
    for j in p.path.iter() {
        s += &match j {
            Pj::F(i) => format!(".{}", i),
            Pj::Dc(i) => format!("@{}", i),
            Pj::At(l) => format!("[{}]", l.show()),
        };
    }
    if let Some((a, b)) = &p.meta {
        s += &format!("<{};{}>", a.show(), b.show());
    }
    s
}
pub fn show_seg(s: &Seg) -> String {
    match s {
        Seg::El(v) => show(v),
        Seg::Sub(c, a, b) => format!("{}#{}[{}..{}]", cont_name(*c), c, a.show(), b.show()),
    }
}
pub fn inst_name(i: &Instance) -> String {
    i.def.name().to_string()
}

/// a remembered comparison of two pieces of contents
#[derive(Clone)]
pub struct EqMemo {
    pub lo: (Lin, Lin),
    pub n: (Lin, Lin),
    pub y: Sym,
}
pub fn eq_memos(a: CId, b: CId) -> Vec<EqMemo> {
    T.with(|t| t.borrow().eqm.get(&(a, b)).cloned().unwrap_or_default())
}
pub fn eq_memo_add(a: CId, b: CId, m: EqMemo) {
    T.with(|t| t.borrow_mut().eqm.entry((a, b)).or_default().push(m));
}
pub fn eq_memo_live(live: &dyn Fn(CId) -> bool, ysym: &dyn Fn(Sym) -> bool, sym: &dyn Fn(Sym) -> bool, out: &mut std::collections::HashSet<Sym>) {
    T.with(|t| {
        for ((a, b), v) in t.borrow().eqm.iter() {
            if live(*a) && live(*b) {
                for m in v {
                    let ls = [&m.lo.0, &m.lo.1, &m.n.0, &m.n.1];
                    if ysym(m.y) || ls.iter().all(|l| l.t.iter().all(|p| sym(p.0))) {
                        out.insert(m.y);
                        for l in ls {
                            for p in &l.t {
                                out.insert(p.0);
                            }
                        }
                    }
                }
            }
        }
    });
}
/// comparisons by their result
pub fn eq_memo_of(want: &dyn Fn(Sym) -> bool) -> Vec<EqMemo> {
    T.with(|t| t.borrow().eqm.values().flatten().filter(|m| want(m.y)).cloned().collect())
}
pub fn cont_is_lit(c: CId) -> bool {
    T.with(|t| t.borrow().cont[c as usize].lit.is_some())
}
