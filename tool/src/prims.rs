//! Models of the standard library and of the monitor primitives.
use std::collections::HashSet;
use rustc_public::CrateDefType;
use crate::interp::*;
use crate::lin::*;
use crate::state::*;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::rc::Rc;

pub type R = Result<Out<V>, State>;

/// strip generic argument groups (but not `<impl ..>` / `<T as ..>` heads)
pub fn norm_name(n: &str) -> String {
    let b: Vec<char> = n.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == ':' && i + 2 < b.len() && b[i + 1] == ':' && b[i + 2] == '<' {
            let rest: String = b[i + 3..].iter().take(5).collect();
            if !rest.starts_with("impl ") {
                // skip the group
                let mut d = 0;
                let mut j = i + 2;
                while j < b.len() {
                    if b[j] == '<' {
                        d += 1
                    }
                    if b[j] == '>' && b[j - 1] != '-' {
                        d -= 1;
                        if d == 0 {
                            break;
                        }
                    }
                    j += 1;
                }
                i = j + 1;
                continue;
            }
        }
        out.push(b[i]);
        i += 1;
    }
    out
}
pub fn gty(ga: &GenericArgs, n: usize) -> Option<Ty> {
    ga.0.iter()
        .filter_map(|g| match g {
            GenericArgKind::Type(t) => Some(*t),
            _ => None,
        })
        .nth(n)
}
/// coarse classification of a type for dispatch
pub fn cls(ty: Ty) -> String {
    match rigid(ty) {
        Some(RigidTy::Adt(d, _)) => {
            let n = d.name().to_string();
            n.rsplit("::").take(2).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("::")
        }
        Some(RigidTy::Slice(_)) => "slice".into(),
        Some(RigidTy::Str) => "str".into(),
        Some(RigidTy::Array(..)) => "array".into(),
        Some(RigidTy::Ref(_, t, m)) => format!("{}{}", if m == Mutability::Mut { "&mut " } else { "&" }, cls(t)),
        Some(RigidTy::Char) => "char".into(),
        Some(RigidTy::Bool) => "bool".into(),
        Some(RigidTy::Uint(_)) | Some(RigidTy::Int(_)) => "int".into(),
        Some(RigidTy::Closure(..)) => "closure".into(),
        Some(RigidTy::Tuple(_)) => "tuple".into(),
        _ => "?".into(),
    }
}
fn is_seq_ty(ty: Ty) -> bool {
    seq_elem(ty).is_some()
}
/// does dropping a value of this type have an effect we track?
pub fn drop_matters(ty: Ty) -> bool {
    match rigid(ty) {
        Some(RigidTy::Adt(d, _)) => {
            let n = d.name().to_string();
            n.ends_with("BufWriter") || n.contains("harness::")
        }
        _ => false,
    }
}
pub fn win(p: &Ptr, lo: Lin, len: Lin) -> V {
    V::Ref(Ptr { base: p.base, path: p.path.clone(), meta: Some((lo, len)) })
}

impl Interp {
    pub fn interpretable(&self, n: &str) -> bool {
        if n.contains("liner::") || n.contains("harness::") {
            return true;
        }
        let deny = [
            "raw_vec", "std::alloc", "alloc::alloc", "std::fs::", "std::path::", "std::io::", "std::sys", "std::env", "std::time", "std::thread", "std::sync", "termion", "unicode_width", "strip_ansi",
            "std::process", "std::ffi", "core::fmt", "std::fmt::", "alloc::fmt", "std::collections::Vec", "std::vec::", "alloc::vec", "std::string", "std::str", "core::str", "vec_deque", "std::hash", "core::hash", "std::char",
            "core::unicode", "core::char", "std::panicking", "core::panicking", "std::rt", "spec_extend", "spec_from", "std::collections",
        ];
        !deny.iter().any(|d| n.trim_start_matches('<').contains(d))
    }
    /// the sequence behind a reference (respecting its window)
    pub fn get_seq(&mut self, st: State, v: &V) -> Out<Vec<Seg>> {
        match v {
            V::Seq(s) => vec![(st, s.to_vec())],
            _ => {
                let Some(p) = deref(v) else {
                    let c = fresh_seq(None, "unknown", true);
                    let V::Seq(s) = c else { unreachable!() };
                    return vec![(st, s.to_vec())];
                };
                let mut out = vec![];
                let base = Ptr { base: p.base, path: p.path.clone(), meta: None };
                for (s, x) in st.load(&base) {
                    match x {
                        V::Seq(q) => match &p.meta {
                            None => {
                                let n = s.nseq(q.to_vec());
                                out.push((s, n))
                            }
                            Some((lo, len)) => {
                                let total = s.cs.norm(&seq_len(&q));
                                if lo.is_const() == Some(0) && s.cs.norm(len) == total {
                                    let n = s.nseq(q.to_vec());
                                    out.push((s, n));
                                    continue;
                                }
                                for (s2, (_, r)) in s.split(&q, lo) {
                                    for (s3, (m, _)) in s2.split(&r, len) {
                                        out.push((s3, m));
                                    }
                                }
                            }
                        },
                        V::Ref(_) | V::Opq(_) => out.extend(self.get_seq(s, &x)),
                        _ => {
                            let V::Seq(q) = fresh_seq(None, "unknown", true) else { unreachable!() };
                            out.push((s, q.to_vec()))
                        }
                    }
                }
                out
            }
        }
    }
    fn bad_window(&mut self, mut st: State, v: &V) -> (State, (Ptr, Lin, Lin)) {
        *self.stats.taint_src.entry(format!("not a sequence: {} in {}", show(v).chars().take(60).collect::<String>(), self.where_())).or_insert(0) += 1;
        st.taint = true;
        let V::Seq(q) = fresh_seq(None, "unknown", true) else { unreachable!() };
        let n = seq_len(&q);
        let h = new_heap(V::Undef);
        st.set_base(Base::Heap(h), V::Seq(q));
        (st, (Ptr::new(Base::Heap(h)), Lin::k(0), n))
    }
    /// (base pointer of the sequence, lo, len) of a reference to a sequence
    pub fn window(&mut self, st: State, v: &V) -> Out<(Ptr, Lin, Lin)> {
        let Some(p) = deref(v) else { return vec![self.bad_window(st, v)] };
        let base = Ptr { base: p.base, path: p.path.clone(), meta: None };
        if let Some((lo, len)) = p.meta {
            return vec![(st, (base, lo, len))];
        }
        let mut out = vec![];
        for (s, x) in st.load(&base) {
            match x {
                V::Seq(q) => {
                    let n = s.cs.norm(&seq_len(&q));
                    out.push((s, (base.clone(), Lin::k(0), n)));
                }
                V::Ref(_) | V::Opq(_) => out.extend(self.window(s, &x)),
                o => out.push(self.bad_window(s, &o)),
            }
        }
        out
    }
    pub fn set_seq(&mut self, st: State, v: &V, segs: Vec<Seg>) -> Vec<State> {
        let Some(p) = deref(v) else {
            let mut st = st;
            st.taint = true;
            return vec![st];
        };
        if !ptr_valid(&p) {
            let mut st = st;
            st.taint = true;
            return vec![st];
        }
        let n = st.nseq(segs);
        let base = Ptr { base: p.base, path: p.path.clone(), meta: None };
        st.store(&base, seq(n))
    }
    pub fn load_ref(&mut self, st: State, v: &V) -> Out<V> {
        match deref(v) {
            Some(p) if ptr_valid(&p) => st.load(&p),
            _ => vec![(st, V::Top)],
        }
    }
    fn lin_of(&self, v: &V) -> Option<Lin> {
        match v {
            V::Int(l) => Some(l.clone()),
            _ => None,
        }
    }
    pub fn lit_str(&mut self, st: &State, v: &V) -> Option<String> {
        let r = self.get_seq(st.clone(), v);
        let (_, segs) = r.into_iter().next()?;
        self.segs_lit(&segs)
    }
    pub fn segs_lit(&self, segs: &[Seg]) -> Option<String> {
        let mut out = String::new();
        for s in segs {
            match s {
                Seg::El(V::Int(l)) => out.push(char::from_u32(l.is_const()? as u32)?),
                Seg::Sub(c, a, b) => {
                    let lit = T.with(|t| t.borrow().cont[*c as usize].lit.clone())?;
                    let (a, b) = (a.is_const()? as usize, b.is_const()? as usize);
                    for k in lit.get(a..b)?.iter() {
                        out.push(char::from_u32(*k as u32)?);
                    }
                }
                _ => return None,
            }
        }
        Some(out)
    }
    /// byte offset of character i in content c
    fn byte_off(&mut self, st: &mut State, c: CId, i: &Lin) -> Lin {
        let i = st.cs.norm(i);
        if i.is_const() == Some(0) {
            return Lin::k(0);
        }
        let lit = T.with(|t| t.borrow().cont[c as usize].lit.clone());
        if let (Some(l), Some(k)) = (&lit, i.is_const()) {
            let n: usize = l.iter().take(k as usize).map(|x| char::from_u32(*x as u32).map_or(1, |c| c.len_utf8())).sum();
            return Lin::k(n as i128);
        }
        let t = cont_taint(c) || lin_taint(&i);
        let (s, new) = memo_sym(format!("P {} {:?}", c, i), Some(0), None, t, "bytes");
        if new {
            T.with(|t| t.borrow_mut().byte_tab.entry(c).or_default().push((i.clone(), s)));
        }
        let l = Lin::s(s);
        st.assume(&Con::le2(&i, &l));
        st.assume(&Con::le2(&l, &i.mulk(4)));
        // relate to other boundaries of the same content
        let others = T.with(|t| t.borrow().byte_tab.get(&c).cloned().unwrap_or_default());
        let mut n = 0;
        for (j, s2) in others.iter().rev() {
            if *s2 == s || !(st.cs.subst.contains_key(s2) || st.cs.cons.iter().any(|c| c.l.t.iter().any(|t| t.0 == *s2))) {
                continue;
            }
            n += 1;
            if n > 6 {
                break;
            }
            let j = st.cs.norm(j);
            let l2 = Lin::s(*s2);
            if st.cs.entails(&Con::le2(&j, &i)) {
                st.assume(&Con::le2(&i.sub(&j), &l.sub(&l2)));
                st.assume(&Con::le2(&l.sub(&l2), &i.sub(&j).mulk(4)));
            } else if st.cs.entails(&Con::le2(&i, &j)) {
                st.assume(&Con::le2(&j.sub(&i), &l2.sub(&l)));
                st.assume(&Con::le2(&l2.sub(&l), &j.sub(&i).mulk(4)));
            }
        }
        l
    }
    pub fn blen(&mut self, st: &mut State, segs: &[Seg]) -> Lin {
        let mut n = Lin::k(0);
        for s in segs {
            match s {
                Seg::El(V::Int(l)) => match l.is_const() {
                    Some(k) => n = n.addk(char::from_u32(k as u32).map_or(1, |c| c.len_utf8()) as i128),
                    None => {
                        let (x, _) = memo_sym(format!("utf8len {:?}", l), Some(1), Some(4), lin_taint(l), "utf8len");
                        n = n.add(&Lin::s(x));
                    }
                },
                Seg::El(_) => {
                    n = n.add(&Lin::s(fresh(Some(1), Some(4), true, "utf8len")));
                }
                Seg::Sub(c, a, b) => {
                    let x = self.byte_off(st, *c, b);
                    let y = self.byte_off(st, *c, a);
                    n = n.add(&x.sub(&y));
                }
            }
        }
        st.cs.norm(&n)
    }
    /// number of characters in the first k bytes, when k is a known character boundary
    fn byte_to_char(&mut self, st: &mut State, segs: &[Seg], k: &Lin) -> Option<Lin> {
        let k = st.cs.norm(k);
        if k.is_const() == Some(0) {
            return Some(Lin::k(0));
        }
        let total = self.blen(st, segs);
        if total == k || st.cs.entails(&Con::eq2(&total, &k)) {
            return Some(seq_len(segs));
        }
        let mut chars = Lin::k(0);
        let mut bytes = Lin::k(0);
        for s in segs {
            if bytes == k || st.cs.entails(&Con::eq2(&bytes, &k)) {
                return Some(chars);
            }
            match s {
                Seg::El(_) => {
                    chars = chars.addk(1);
                    let b = self.blen(st, &[s.clone()]);
                    bytes = bytes.add(&b);
                }
                Seg::Sub(c, a, b) => {
                    let start = self.byte_off(st, *c, a);
                    let lit = T.with(|t| t.borrow().cont[*c as usize].lit.clone());
                    if let (Some(l), Some(rel), Some(a0)) = (lit, st.cs.norm(&k.sub(&bytes)).is_const(), a.is_const()) {
                        let mut acc = 0i128;
                        let mut n = a0 as usize;
                        while n <= l.len() {
                            if acc == rel {
                                return Some(chars.addk(n as i128 - a0));
                            }
                            if n == l.len() {
                                break;
                            }
                            acc += char::from_u32(l[n] as u32).map_or(1, |c| c.len_utf8()) as i128;
                            n += 1;
                        }
                    }
                    // characters that are known to be ASCII take a byte each
                    if let Some(rel) = st.cs.norm(&k.sub(&bytes)).is_const() {
                        let ascii = |i: i128| {
                            let v = T.with(|t| t.borrow().reads.get(&(*c, a.addk(i))).cloned());
                            matches!(v, Some(V::Int(l)) if st.cs.norm(&l).is_const().map_or(false, |x| x < 128))
                        };
                        if (1..=4).contains(&rel) && (0..rel).all(ascii) && st.cs.entails(&Con::le2(&a.addk(rel), b)) {
                            return Some(chars.addk(rel));
                        }
                    }
                    let known = T.with(|t| t.borrow().byte_tab.get(c).cloned().unwrap_or_default());
                    for (i, sy) in known {
                        let off = bytes.add(&Lin::s(sy)).sub(&start);
                        let i = st.cs.norm(&i);
                        if st.cs.entails(&Con::eq2(&off, &k)) && st.cs.entails(&Con::le2(a, &i)) && st.cs.entails(&Con::le2(&i, b)) {
                            return Some(chars.add(&i.sub(a)));
                        }
                    }
                    let e = self.byte_off(st, *c, b);
                    bytes = bytes.add(&e).sub(&start);
                    chars = chars.add(&b.sub(a));
                }
            }
        }
        if st.cs.entails(&Con::eq2(&bytes, &k)) {
            return Some(chars);
        }
        None
    }
    /// resolve a range argument to (lo, hi)
    fn range(&mut self, v: &V, ty: Ty, len: &Lin) -> Option<(Lin, Lin)> {
        let c = cls(ty);
        let c = c.rsplit("::").next().unwrap_or("").to_string();
        let f = |i: usize| -> Option<Lin> {
            match v {
                V::Agg(a) => match a.get(i) {
                    Some(V::Int(l)) => Some(l.clone()),
                    _ => None,
                },
                _ => None,
            }
        };
        Some(match c.as_str() {
            "Range" => (f(0)?, f(1)?),
            "RangeFrom" => (f(0)?, len.clone()),
            "RangeTo" => (Lin::k(0), f(0)?),
            "RangeFull" => (Lin::k(0), len.clone()),
            "RangeInclusive" => (f(0)?, f(1)?.addk(1)),
            "RangeToInclusive" => (Lin::k(0), f(0)?.addk(1)),
            _ => return None,
        })
    }
    fn opt_elem(&mut self, st: State, p: &Ptr, lo: &Lin, len: &Lin, idx: &Lin) -> Out<V> {
        // Option<&elem> at index idx within the window
        let c = Con::lt2(idx, len);
        let (a, b) = self.fork_pred(st, &c);
        let mut out = vec![];
        if let Some(s) = a {
            out.push((s, some(V::Ref(p.push(Pj::At(lo.add(idx)))))));
        }
        if let Some(s) = b {
            out.push((s, none()));
        }
        out
    }
    /// remove and return the range [lo, hi) of a sequence
    fn cut(&mut self, st: State, recv: &V, lo: &Lin, hi: &Lin) -> Out<Vec<Seg>> {
        let mut out = vec![];
        for (s, segs) in self.get_seq(st, recv) {
            for (s, (l, r)) in s.split(&segs, lo) {
                for (s, (m, r2)) in s.split(&r, &hi.sub(lo)) {
                    let mut n = l.clone();
                    n.extend(r2);
                    for s2 in self.set_seq(s, recv, n) {
                        out.push((s2, m.clone()));
                    }
                }
            }
        }
        out
    }
    /// the remaining elements of an iterator that merely walks a sequence
    fn drain_iter(&mut self, st: State, v: &V, ty: Ty) -> Result<Out<Vec<Seg>>, State> {
        let c = cls(ty);
        let f0 = |v: &V| -> V {
            match v {
                V::Agg(a) if !a.is_empty() => a[0].clone(),
                o => o.clone(),
            }
        };
        let last = c.rsplit("::").next().unwrap_or("").to_string();
        match (c.as_str(), last.as_str()) {
            ("vec::IntoIter", _) | ("vec_deque::IntoIter", _) | ("array::IntoIter", _) | (_, "Drain") => match f0(v) {
                V::Seq(s) => Ok(vec![(st, s.to_vec())]),
                _ => Err(st),
            },
            ("str::Chars", _) => {
                let p = f0(v);
                Ok(self.get_seq(st, &p))
            }
            (_, "Cloned") | (_, "Copied") => {
                let inner = match rigid(ty) {
                    Some(RigidTy::Adt(_, ga)) => gty(&ga, 0),
                    _ => None,
                };
                if let Some(i) = inner {
                    let ci = cls(i);
                    if ci == "slice::Iter" || ci == "vec_deque::Iter" {
                        let p = f0(&f0(v));
                        return Ok(self.get_seq(st, &p));
                    }
                }
                Err(st)
            }
            ("vec::Vec", _) | ("collections::VecDeque", _) | ("vec_deque::VecDeque", _) => match v {
                V::Seq(s) => Ok(vec![(st, s.to_vec())]),
                _ => Err(st),
            },
            _ => Err(st),
        }
    }
    pub fn model(&mut self, st: State, m: &str, tys: &[Ty], args: Vec<V>, atys: &[Ty], rty: Ty) -> R {
        let Some(def) = self.models.get(m).cloned() else { return Err(st) };
        let mut ga: Vec<GenericArgKind> = tys.iter().map(|t| GenericArgKind::Type(*t)).collect();
        // models over references have a lifetime as their first parameter
        if matches!(m, "string_from_char_refs" | "string_from_strs" | "string_extend_char_refs" | "string_extend_strs" | "vec_extend_refs") {
            ga.insert(0, GenericArgKind::Lifetime(rustc_public::ty::Region { kind: rustc_public::ty::RegionKind::ReErased }));
        }
        let ga = GenericArgs(ga);
        match Instance::resolve(def, &ga) {
            Ok(i) => Ok(self.call_inst(st, i, None, args, atys, rty)),
            Err(_) => Err(st),
        }
    }
    pub fn iter_next(&mut self, st: State, it: &V, ty: Ty, back: bool) -> R {
        let c = cls(ty);
        let last = c.rsplit("::").next().unwrap_or("").to_string();
        match (c.as_str(), last.as_str()) {
            ("slice::Iter", _) | ("slice::IterMut", _) | ("vec_deque::Iter", _) | ("vec_deque::IterMut", _) | ("str::Chars", _) | ("str::CharIndices", _) => {
                let chars = last == "Chars" || last == "CharIndices";
                let mut out = vec![];
                for (s, v) in self.load_ref(st, it) {
                    let V::Agg(f) = &v else {
                        out.push((s, V::Top));
                        continue;
                    };
                    for (s, (p, lo, len)) in self.window(s, &f[0]) {
                        if !ptr_valid(&p) {
                            out.push((s, V::Top));
                            continue;
                        }
                        let (a, b) = self.fork_pred(s, &Con::ge(len.addk(-1)));
                        if let Some(s) = b {
                            out.push((s, none()));
                        }
                        if let Some(s) = a {
                            let idx = if back { lo.add(&len).addk(-1) } else { lo.clone() };
                            let nw = if back { win(&p, lo.clone(), len.addk(-1)) } else { win(&p, lo.addk(1), len.addk(-1)) };
                            let ep = p.push(Pj::At(idx.clone()));
                            let elems: Out<V> = if chars { s.load(&ep) } else { vec![(s, V::Ref(ep))] };
                            for (mut s, e) in elems {
                                let mut nf = (**f).clone();
                                nf[0] = nw.clone();
                                let mut item = e.clone();
                                if last == "CharIndices" {
                                    // position = stored front offset
                                    let pos = match &nf[1] {
                                        V::Int(l) => l.clone(),
                                        _ => Lin::s(fresh(Some(0), None, true, "pos")),
                                    };
                                    if back {
                                        let segs = self.get_seq(s.clone(), &nw).into_iter().next().map(|x| x.1).unwrap_or_default();
                                        let b = self.blen(&mut s, &segs);
                                        item = agg(vec![V::Int(pos.add(&b)), e.clone()]);
                                    } else {
                                        // offset of the element in its content, when known
                                        let es = elem_seg(&s, &e); let l = self.blen(&mut s, &[es]);
                                        item = agg(vec![V::Int(pos.clone()), e.clone()]);
                                        nf[1] = V::Int(s.cs.norm(&pos.add(&l)));
                                    }
                                }
                                let pp = deref(it).unwrap();
                                for s2 in s.store(&pp, agg(nf.clone())) {
                                    out.push((s2, some(item.clone())));
                                }
                            }
                        }
                    }
                }
                Ok(out)
            }
            ("vec::IntoIter", _) | ("vec_deque::IntoIter", _) | ("array::IntoIter", _) | (_, "Drain") => {
                let mut out = vec![];
                for (s, v) in self.load_ref(st, it) {
                    let V::Agg(f) = &v else {
                        out.push((s, V::Top));
                        continue;
                    };
                    let V::Seq(q) = &f[0] else {
                        out.push((s, V::Top));
                        continue;
                    };
                    let len = s.cs.norm(&seq_len(q));
                    let (a, b) = self.fork_pred(s, &Con::ge(len.addk(-1)));
                    if let Some(s) = b {
                        out.push((s, none()));
                    }
                    if let Some(s) = a {
                        let idx = if back { len.addk(-1) } else { Lin::k(0) };
                        for (s, (l, e, r)) in s.seq_at(q, &idx) {
                            let mut n = l.clone();
                            n.extend(r);
                            let n = s.nseq(n);
                            let pp = deref(it).unwrap();
                            for s2 in s.store(&pp, agg(vec![seq(n.clone())])) {
                                out.push((s2, some(e.clone())));
                            }
                        }
                    }
                }
                Ok(out)
            }
            ("range::Range", _) | ("ops::Range", _) => {
                let mut out = vec![];
                for (s, v) in self.load_ref(st, it) {
                    let V::Agg(f) = &v else {
                        out.push((s, V::Top));
                        continue;
                    };
                    let (Some(a), Some(b)) = (self.lin_of(&f[0]), self.lin_of(&f[1])) else {
                        out.push((s, V::Top));
                        continue;
                    };
                    let t = lin_taint(&a) || lin_taint(&b);
                    let (x, y) = self.fork_pred(s, &Con::lt2(&a, &b));
                    if let Some(mut s) = y {
                        s.taint |= t;
                        out.push((s, none()));
                    }
                    if let Some(mut s) = x {
                        s.taint |= t;
                        let (nv, item) = if back { (agg(vec![V::Int(a.clone()), V::Int(b.addk(-1))]), V::Int(b.addk(-1))) } else { (agg(vec![V::Int(a.addk(1)), V::Int(b.clone())]), V::Int(a.clone())) };
                        let pp = deref(it).unwrap();
                        for s2 in s.store(&pp, nv.clone()) {
                            out.push((s2, some(item.clone())));
                        }
                    }
                }
                Ok(out)
            }
            ("range::RangeInclusive", _) | ("ops::RangeInclusive", _) => {
                let mut out = vec![];
                for (s, v) in self.load_ref(st, it) {
                    let V::Agg(f) = &v else {
                        out.push((s, V::Top));
                        continue;
                    };
                    let (Some(a), Some(b)) = (self.lin_of(&f[0]), self.lin_of(&f[1])) else {
                        out.push((s, V::Top));
                        continue;
                    };
                    // use start = end + 1 as the exhausted encoding
                    let (x, y) = self.fork_pred(s, &Con::le2(&a, &b));
                    if let Some(s) = y {
                        out.push((s, none()));
                    }
                    if let Some(s) = x {
                        let ex = f[2].clone();
                        let (nv, item) = if back { (agg(vec![V::Int(a.clone()), V::Int(b.addk(-1)), ex]), V::Int(b.clone())) } else { (agg(vec![V::Int(a.addk(1)), V::Int(b.clone()), ex]), V::Int(a.clone())) };
                        let pp = deref(it).unwrap();
                        for s2 in s.store(&pp, nv.clone()) {
                            out.push((s2, some(item.clone())));
                        }
                    }
                }
                Ok(out)
            }
            ("str::Split", _) | ("str::Lines", _) | ("str::SplitWhitespace", _) | ("str::RSplit", _) | ("str::SplitN", _) | ("str::SplitInclusive", _) | ("str::SplitTerminator", _) => {
                // some sub-slice of the text, at most as long as the text
                let mut out = vec![];
                for (s, v) in self.load_ref(st, it) {
                    let V::Agg(f) = &v else {
                        out.push((s, V::Top));
                        continue;
                    };
                    let total = self.lin_of(&f[0]).unwrap_or(Lin::k(0));
                    out.push((s.clone(), none()));
                    let q = fresh_seq(Some(t_char()), "piece", false);
                    let V::Seq(sg) = &q else { unreachable!() };
                    let n = seq_len(sg);
                    let mut s = s;
                    if s.assume(&Con::le2(&n, &total)) {
                        let h = new_heap(q.clone());
                        out.push((s, some(V::Ref(Ptr { base: Base::Heap(h), path: Rc::new(vec![]), meta: Some((Lin::k(0), n)) }))));
                    }
                }
                Ok(out)
            }
            ("char::ToUppercase", _) | ("char::ToLowercase", _) => {
                let s = st;
                Ok(vec![(s.clone(), none()), (s, some(fresh_val(t_char(), "cased", false)))])
            }
            ("io::Lines", _) => {
                let rt = rty_of_next(ty);
                let _ = rt;
                Err(st)
            }
            _ => Err(st),
        }
    }
    fn bool_out(&mut self, st: State, c: Con) -> Out<V> {
        match c.triv() {
            Some(b) => vec![(st, vbool(b))],
            None => {
                if st.cs.entails(&c) {
                    vec![(st, vbool(true))]
                } else {
                    vec![(st, V::Pred(c))]
                }
            }
        }
    }
    pub fn seq_eq(&mut self, st: State, a: &[Seg], b: &[Seg], depth: u32) -> Out<V> {
        let a = st.nseq(a.to_vec());
        let b = st.nseq(b.to_vec());
        if a == b {
            return vec![(st, vbool(true))];
        }
        let (la, lb) = (st.cs.norm(&seq_len(&a)), st.cs.norm(&seq_len(&b)));
        let leq = Con::eq2(&la, &lb);
        if st.cs.entails(&leq.negate()) {
            return vec![(st, vbool(false))];
        }
        let _ = depth;
        let mut out = vec![];
        let mut s = st;
        // two pieces of unknown contents: one consistent unknown per pair of pieces
        let mut memo: Option<Sym> = None;
        if let ([Seg::Sub(c1, l1, _)], [Seg::Sub(c2, l2, _)]) = (&a[..], &b[..]) {
            if !cont_is_lit(*c1) && !cont_is_lit(*c2) {
                let ((c1, l1, n1), (c2, l2, n2)) = if c1 <= c2 { ((*c1, l1, &la), (*c2, l2, &lb)) } else { ((*c2, l2, &lb), (*c1, l1, &la)) };
                let same = |p: &Lin, q: &Lin| p == q || st_entails(&s, &Con::eq2(p, q));
                for m in eq_memos(c1, c2) {
                    if same(&m.lo.0, l1) && same(&m.lo.1, l2) && same(&m.n.0, n1) && same(&m.n.1, n2) {
                        memo = Some(m.y);
                        break;
                    }
                }
                if memo.is_none() {
                    let t = self.segs_taint(&a) || self.segs_taint(&b);
                    let y = fresh(Some(0), Some(1), t, "eq");
                    eq_memo_add(c1, c2, EqMemo { lo: (l1.clone(), l2.clone()), n: (n1.clone(), n2.clone()), y });
                    memo = Some(y);
                }
            }
        }
        if let Some(y) = memo {
            match s.cs.norm(&Lin::s(y)).is_const() {
                Some(0) => return vec![(s, vbool(false))],
                Some(_) => {
                    s.assume(&leq);
                    return vec![(s, vbool(true))];
                }
                None => {}
            }
        }
        if !st_entails(&s, &leq) {
            let (x, y) = self.fork_pred(s, &leq);
            if let Some(mut y) = y {
                if let Some(m) = memo {
                    y.assume(&Con::eq(Lin::s(m)));
                }
                out.push((y, vbool(false)));
            }
            match x {
                Some(x) => s = x,
                None => return out,
            }
        }
        let n = s.cs.norm(&la).is_const().or(s.cs.norm(&lb).is_const());
        if let Some(n) = n {
            if n == 0 {
                if let Some(m) = memo {
                    s.assume(&Con::eq(Lin::s(m).addk(-1)));
                }
                out.push((s, vbool(true)));
                return out;
            }
            if memo.is_none() && n <= 6 && a.iter().chain(b.iter()).all(|g| elem_is_int(g)) {
                // element by element
                let mut cur: Out<()> = vec![(s, ())];
                for i in 0..n {
                    let mut nx = vec![];
                    for (s, _) in cur {
                        for (s, (_, x, _)) in s.seq_at(&a, &Lin::k(i)) {
                            for (s, (_, y, _)) in s.seq_at(&b, &Lin::k(i)) {
                                match (&x, &y) {
                                    (V::Int(p), V::Int(q)) => {
                                        let t = lin_taint(p) || lin_taint(q);
                                        let (e, ne) = self.fork_pred(s, &Con::eq2(p, q));
                                        if let Some(mut ne) = ne {
                                            ne.taint |= t;
                                            out.push((ne, vbool(false)));
                                        }
                                        if let Some(mut e) = e {
                                            e.taint |= t;
                                            nx.push((e, ()));
                                        }
                                    }
                                    _ => nx.push((s, ())),
                                }
                            }
                        }
                    }
                    cur = nx;
                }
                for (s, _) in cur {
                    out.push((s, vbool(true)));
                }
                return out;
            }
        }
        if let Some(m) = memo {
            out.push((s, isym(m)));
            return out;
        }
        // undetermined: a consistent unknown
        let t = a.iter().chain(b.iter()).any(|g| match g {
            Seg::El(v) => has_taint(v),
            Seg::Sub(c, x, y) => cont_taint(*c) || lin_taint(x) || lin_taint(y),
        });
        let mut k = [format!("{:?}", a), format!("{:?}", b)];
        k.sort();
        let (y, _) = memo_sym(format!("eq {} {}", k[0], k[1]), Some(0), Some(1), t, "eq");
        out.push((s, isym(y)));
        out
    }
    fn memo_bool(&mut self, key: String, taint: bool, name: &str) -> V {
        let (y, _) = memo_sym(key, Some(0), Some(1), taint, name);
        isym(y)
    }
    fn segs_taint(&self, a: &[Seg]) -> bool {
        a.iter().any(|g| match g {
            Seg::El(v) => has_taint(v),
            Seg::Sub(c, x, y) => cont_taint(*c) || lin_taint(x) || lin_taint(y),
        })
    }
    pub fn fmt_value(&mut self, st: State, r: &V, ty: Ty, debug: bool) -> Out<Vec<Seg>> {
        match rigid(ty) {
            Some(RigidTy::Ref(_, t, _)) => {
                let mut out = vec![];
                if is_unsized_seq(t) {
                    for (s, v) in self.load_ref(st, r) {
                        out.extend(self.fmt_value(s, &v, t, debug));
                    }
                } else {
                    for (s, v) in self.load_ref(st, r) {
                        out.extend(self.fmt_value(s, &v, t, debug));
                    }
                }
                out
            }
            Some(RigidTy::Str) if !debug => self.get_seq(st, r),
            Some(RigidTy::Adt(d, _)) if !debug && d.name().to_string().ends_with("string::String") => self.get_seq(st, r),
            Some(RigidTy::Char) if !debug => {
                let mut out = vec![];
                for (s, v) in self.load_ref(st, r) {
                    out.push((s, vec![Seg::El(v)]));
                }
                out
            }
            Some(RigidTy::Uint(_)) | Some(RigidTy::Int(_)) => {
                let mut out = vec![];
                for (s, v) in self.load_ref(st, r) {
                    if let V::Int(l) = &v {
                        if let Some(k) = s.cs.norm(l).is_const() {
                            let d: Vec<Seg> = k.to_string().chars().map(|c| Seg::El(kint(c as i128))).collect();
                            out.push((s, d));
                            continue;
                        }
                    }
                    let c = new_content(Some(t_char()), "digits", false);
                    let n = fresh(Some(1), Some(20), false, "digits");
                    out.push((s, vec![Seg::Sub(c, Lin::k(0), Lin::s(n))]));
                }
                out
            }
            Some(RigidTy::Adt(d, _)) if !debug && (d.name().to_string().contains("liner::") || d.name().to_string().contains("Cow")) => {
                let Some(def) = self.models.get("display_fmt").cloned() else {
                    return self.unknown_text(st);
                };
                let h = new_heap(seq(vec![]));
                let fp = V::Ref(Ptr::new(Base::Heap(h)));
                let ga = GenericArgs(vec![GenericArgKind::Type(ty)]);
                let Ok(i) = Instance::resolve(def, &ga) else { return self.unknown_text(st) };
                let mut st = st;
                st.set_base(Base::Heap(h), seq(vec![]));
                let rty = Ty::bool_ty();
                // keep the text alive while the body runs
                st.frames.push(Rc::new(vec![fp.clone()]));
                let res = self.call_inst(st, i, None, vec![r.clone(), fp.clone()], &[], rty);
                let mut out = vec![];
                for (mut s, _) in res {
                    let fp = s.frames.pop().map(|f| f[0].clone()).unwrap();
                    out.extend(self.get_seq(s, &fp));
                }
                out
            }
            _ => self.unknown_text(st),
        }
    }
    fn unknown_text(&mut self, st: State) -> Out<Vec<Seg>> {
        let V::Seq(s) = fresh_seq(Some(t_char()), "text", false) else { unreachable!() };
        vec![(st, s.to_vec())]
    }
    /// text of a fmt::Arguments value
    pub fn args_text(&mut self, st: State, v: &V) -> Out<Vec<Seg>> {
        match v {
            V::Agg(a) if a.len() == 1 => match &a[0] {
                V::Seq(s) => vec![(st, s.to_vec())],
                _ => self.unknown_text(st),
            },
            _ => self.unknown_text(st),
        }
    }
    fn append_all(&mut self, st: State, recv: &V, segs: Vec<Seg>) -> Vec<State> {
        let mut out = vec![];
        for (s, mut cur) in self.get_seq(st, recv) {
            cur.extend(segs.iter().cloned());
            out.extend(self.set_seq(s, recv, cur));
        }
        out
    }
    fn str_ref(&mut self, st: State, segs: Vec<Seg>) -> (State, V) {
        let mut st = st;
        let n = st.nseq(segs);
        let len = seq_len(&n);
        let h = new_heap(seq(vec![]));
        st.set_base(Base::Heap(h), seq(n));
        (st, V::Ref(Ptr { base: Base::Heap(h), path: Rc::new(vec![]), meta: Some((Lin::k(0), len)) }))
    }

    pub fn dyn_call(&mut self, st: State, name: &str, args: Vec<V>, atys: &[Ty], rty: Ty) -> Out<V> {
        // user-supplied closures and trait objects: any result is possible
        let _ = (args, atys);
        let n = short_name(name).to_string();
        vec![(st, fresh_val(rty, &format!("dyn {}", n), false))]
    }
    pub fn drop_ty(&mut self, st: State, _p: V, _ty: Ty) -> Vec<State> {
        vec![st]
    }
    pub fn recursive_call(&mut self, st: State, inst: Instance, bi: &Rc<BodyInfo>, args: Vec<V>, atys: &[Ty], rty: Ty) -> Out<V> {
        // the contract of the function, when the harness supplies one
        for l in bi.body.arg_locals() {
            if let Some(p) = pointee(l.ty) {
                let c = cls(p);
                let m = format!("rec_{}", c.rsplit("::").next().unwrap_or("").to_lowercase());
                if self.models.contains_key(&m) {
                    let def = self.models[&m];
                    // generics: those of the recursive function's own instance, filtered to types
                    let tys: Vec<GenericArgKind> = inst.args().0.iter().filter(|g| matches!(g, GenericArgKind::Type(_))).cloned().collect();
                    let _ = tys;
                    if let Ok(i) = Instance::resolve(def, &GenericArgs(vec![])) {
                        return self.call_inst(st, i, None, args, atys, rty);
                    }
                }
            }
        }
        self.unknown_call(st, &format!("recursive {}", bi.name), args, atys, rty)
    }
    pub fn contract(&mut self, st: State, inst: &Instance, bi: &Rc<BodyInfo>, args: &[V], atys: &[Ty], rty: Ty) -> R {
        if !bi.is_liner {
            return Err(st);
        }
        let Some(cn) = contract_name(&bi.name) else { return Err(st) };
        if self.no_contract.contains(&cn) {
            return Err(st);
        }
        let Some(def) = self.contracts.get(&cn).cloned() else { return Err(st) };
        let tys: Vec<GenericArgKind> = inst.args().0.iter().filter(|g| matches!(g, GenericArgKind::Type(_))).cloned().collect();
        let n = generics_count(&def);
        let ga = GenericArgs(if n == 0 { vec![] } else { tys });
        match Instance::resolve(def, &ga) {
            Ok(i) => {
                *self.stats.contracts.entry(cn).or_insert(0) += 1;
                let Some(b2) = self.body(i) else { return Err(st) };
                if b2.body.arg_locals().len() != args.len() {
                    self.stats.missing.insert(format!("contract {} has the wrong number of arguments", bi.name));
                    return Err(st);
                }
                let _ = (atys, rty);
                Ok(self.run_body(i, b2, args.to_vec(), st))
            }
            Err(_) => Err(st),
        }
    }

    // ================================================================ dispatch
    pub fn prim(&mut self, st: State, name: &str, ga: &GenericArgs, args: &[V], atys: &[Ty], rty: Ty) -> R {
        if name.contains("liner::") && !name.contains("harness::") {
            return Err(st);
        }
        let n = norm_name(name);
        let r = self.prim_monitor(st, &n, ga, args, atys, rty);
        let st = match r {
            Ok(o) => return Ok(o),
            Err(s) => s,
        };
        // trait methods: dispatch on the self type
        if let Some((tr, m)) = trait_method(&n) {
            let st2 = match self.prim_trait(st, tr, m, ga, args, atys, rty) {
                Ok(o) => return Ok(o),
                Err(s) => s,
            };
            // a trait implemented by the code under analysis: its own body decides
            if let Some(t) = gty(ga, 0) {
                let own = |x: &str| x.contains("liner::") || x.contains("harness::");
                if own(&adt_name(t)) && !matches!(tr, "Hash") {
                    return Err(st2);
                }
            }
            return self.prim_fn(st2, &n, ga, args, atys, rty);
        }
        // what is left of a text that is being iterated over
        if n.ends_with("Chars::as_str") || n.contains("::Chars::") && n.ends_with("::as_str") {
            let mut out = vec![];
            for (s, v) in self.load_ref(st.clone(), &args[0]) {
                match &v {
                    V::Agg(f) if matches!(f.first(), Some(V::Ref(_))) => out.push((s, f[0].clone())),
                    _ => return self.prim_fn(st, &n, ga, args, atys, rty),
                }
            }
            return Ok(out);
        }
        self.prim_fn(st, &n, ga, args, atys, rty)
    }
    fn prim_monitor(&mut self, st: State, n: &str, ga: &GenericArgs, args: &[V], _atys: &[Ty], rty: Ty) -> R {
        let mut st = st;
        match n {
            "harness::nondet" => Ok(vec![(st, fresh_val(rty, "nondet", false))]),
            "harness::assume" => {
                let (a, _) = self.fork_bool(st, &args[0]);
                Ok(a.into_iter().map(|s| (s, unit())).collect())
            }
            "harness::check" => {
                let id = self.lit_str(&st, &args[1]).unwrap_or_else(|| "C00 ?".into());
                let (p, what) = id.split_once(' ').unwrap_or((&id, ""));
                let c = match &args[0] {
                    V::Int(l) => Con::eq(l.addk(-1)),
                    V::Pred(c) => c.clone(),
                    _ => {
                        self.note(p, what, 2);
                        return Ok(vec![(st, unit())]);
                    }
                };
                let (p, what) = (p.to_string(), what.to_string());
                if self.require(&mut st, &p, &c, &what) {
                    Ok(vec![(st, unit())])
                } else {
                    Ok(vec![])
                }
            }
            "harness::ghost_get" => {
                let i = self.lin_of(&args[0]).and_then(|l| l.is_const()).unwrap_or(0) as usize;
                let v = st.ghost.get(i).cloned().unwrap_or(V::Undef);
                Ok(vec![(st, v)])
            }
            "harness::ghost_set" => {
                let i = self.lin_of(&args[0]).and_then(|l| l.is_const()).unwrap_or(0) as usize;
                let g = Rc::make_mut(&mut st.ghost);
                while g.len() <= i {
                    g.push(V::Undef);
                }
                g[i] = args[1].clone();
                Ok(vec![(st, unit())])
            }
            "harness::assume_each" => {
                // every element of the (untouched) sequence satisfies the closure
                let e = gty(ga, 0).unwrap();
                let fty = gty(ga, 1).unwrap();
                let mut outs = vec![];
                for (s, segs) in self.get_seq(st, &args[0]) {
                    let mut s = s;
                    for g in &segs {
                        let Seg::Sub(c, _, _) = g else { continue };
                        let Some(rep) = cont_rep(*c) else { continue };
                        let h = new_heap(V::Undef);
                        let mut t = s.clone();
                        t.set_base(Base::Heap(h), rep.clone());
                        let clo = new_heap(V::Undef);
                        t.set_base(Base::Heap(clo), args[1].clone());
                        let rs = self.call_closure(t, fty, V::Ref(Ptr::new(Base::Heap(clo))), vec![V::Ref(Ptr::new(Base::Heap(h)))], rty_bool());
                        let mut good = vec![];
                        for (s2, v) in rs {
                            if let (Some(x), _) = self.fork_bool(s2, &v) {
                                good.push(x);
                            }
                        }
                        if good.len() == 1 {
                            let g = good.pop().unwrap();
                            let mut syms: HashSet<Sym> = HashSet::new();
                            walk(&rep, &mut |i| {
                                if let Item::Lin(l) = i {
                                    for p in &l.t {
                                        syms.insert(p.0);
                                    }
                                }
                            });
                            let mut cons: Vec<Con> = g.cs.cons.iter().filter(|c| c.l.t.iter().any(|p| syms.contains(&p.0))).cloned().collect();
                            for x in &syms {
                                if let Some(e) = g.cs.subst.get(x) {
                                    cons.push(Con::eq(Lin::s(*x).sub(e)));
                                }
                            }
                            Rc::make_mut(&mut s.econs).entry(*c).or_default().extend(cons);
                        } else {
                            self.stats.missing.insert(format!("assume_each: {} paths", good.len()));
                        }
                    }
                    let _ = e;
                    outs.push((s, unit()));
                }
                Ok(outs)
            }
            // the index under which the argument is found in the sequence it is an element of
            "harness::position" => {
                let at = deref(&args[0]).and_then(|p| p.path.iter().rev().find_map(|x| if let Pj::At(l) = x { Some(l.clone()) } else { None }));
                let v = match at {
                    Some(l) => V::Int(st.cs.norm(&l)),
                    None => fresh_val(rty, "position", true),
                };
                Ok(vec![(st, v)])
            }
            "harness::seek" => {
                let n = self.lin_of(&args[1]).unwrap_or(Lin::k(0));
                let mut outs = vec![];
                for (s, v) in self.load_ref(st, &args[0]) {
                    let V::Agg(f) = &v else {
                        outs.push((s, unit()));
                        continue;
                    };
                    if let V::Seq(q) = &f[0] {
                        // an iterator that owns its items
                        let len = s.cs.norm(&seq_len(q));
                        let (a, b) = self.fork_pred(s, &Con::le2(&n, &len));
                        let mut res: Out<Vec<Seg>> = vec![];
                        if let Some(s) = a {
                            res.extend(s.split(q, &n).into_iter().map(|(s, (_, r))| (s, r)));
                        }
                        if let Some(s) = b {
                            res.push((s, vec![]));
                        }
                        for (s, r) in res {
                            let mut nf = (**f).clone();
                            nf[0] = seq(s.nseq(r));
                            let pp = deref(&args[0]).unwrap();
                            for s in s.store(&pp, agg(nf.clone())) {
                                outs.push((s, unit()));
                            }
                        }
                        continue;
                    }
                    for (s, (p, lo, len)) in self.window(s, &f[0]) {
                        let (a, b) = self.fork_pred(s, &Con::le2(&n, &len));
                        for (s, nw) in [(a, win(&p, lo.add(&n), len.sub(&n))), (b, win(&p, lo.add(&len), Lin::k(0)))] {
                            if let Some(s) = s {
                                let mut nf = (**f).clone();
                                nf[0] = nw;
                                let pp = deref(&args[0]).unwrap();
                                for s in s.store(&pp, agg(nf.clone())) {
                                    outs.push((s, unit()));
                                }
                            }
                        }
                    }
                }
                Ok(outs)
            }
            "harness::subsequence" => {
                let mut outs = vec![];
                for (mut s, segs) in self.get_seq(st, &args[0]) {
                    let n = s.cs.norm(&seq_len(&segs));
                    let len = Lin::s(fresh(Some(0), None, false, "kept"));
                    s.assume(&Con::le2(&len, &n));
                    let mut ty = None;
                    for g in &segs {
                        if let Seg::Sub(c, ..) = g {
                            ty = ty.or(cont_ty(*c));
                        }
                    }
                    let t = self.segs_taint(&segs);
                    let c2 = new_content(ty, "kept", t);
                    if let [Seg::Sub(c, ..)] = &segs[..] {
                        if let (Some(a), Some(b), Some(es)) = (cont_rep(*c), cont_rep(c2), s.econs.get(c).cloned()) {
                            let mut m: std::collections::HashMap<Sym, Lin> = Default::default();
                            pair_lins(&a, &b, &mut |x, y| {
                                if let Some((q, 0)) = x.as_sym_plus() {
                                    m.insert(q, y.clone());
                                }
                            });
                            let es: Vec<Con> = es.iter().map(|k| k.map(&|q| m.get(&q).cloned())).collect();
                            Rc::make_mut(&mut s.econs).insert(c2, es);
                        }
                        if s.ord.contains(c) {
                            Rc::make_mut(&mut s.ord).insert(c2);
                        }
                    }
                    for s in self.set_seq(s, &args[0], vec![Seg::Sub(c2, Lin::k(0), len)]) {
                        outs.push((s, unit()));
                    }
                }
                Ok(outs)
            }
            "harness::assume_ordered" => {
                let mut outs = vec![];
                for (mut s, segs) in self.get_seq(st, &args[0]) {
                    for g in &segs {
                        if let Seg::Sub(c, _, _) = g {
                            Rc::make_mut(&mut s.ord).insert(*c);
                        }
                    }
                    outs.push((s, unit()));
                }
                Ok(outs)
            }
            "harness::is_ordered" => {
                let mut outs = vec![];
                for (s, segs) in self.get_seq(st, &args[0]) {
                    let b = seq_ordered(&s, &segs);
                    outs.push((s, vbool(b)));
                }
                Ok(outs)
            }
            "harness::peek" | "harness::poke" => {
                let s = gty(ga, 0).unwrap();
                let f = gty(ga, 1).unwrap();
                let name = self.lit_str(&st, &args[1]).unwrap_or_default();
                let info = adt_info(s);
                let mut idx = None;
                if let Some(i) = &info {
                    if !i.variants.is_empty() {
                        idx = i.variants[0].iter().position(|x| x.0 == name && same_shape(x.1, f));
                        if idx.is_none() {
                            let c: Vec<usize> = i.variants[0].iter().enumerate().filter(|(_, x)| same_shape(x.1, f)).map(|x| x.0).collect();
                            if c.len() == 1 {
                                idx = Some(c[0]);
                            }
                        }
                    }
                }
                match (idx, deref(&args[0])) {
                    (Some(i), Some(p)) => Ok(vec![(st, V::Ref(p.push(Pj::F(i as u32))))]),
                    _ => {
                        self.stats.missing.insert(format!("field {} of {}", name, ty_name(s)));
                        st.taint = true;
                        Ok(vec![(st, fresh_val(rty, "peek", true))])
                    }
                }
            }
            "harness::partition" => {
                if let Some(p) = deref(&args[0]) {
                    PARTITION.with(|ps| ps.borrow_mut().push(p));
                }
                Ok(vec![(st, unit())])
            }
            "harness::case" => {
                let (Some(i), Some(n)) = (self.lin_of(&args[0]).and_then(|l| l.is_const()), self.lin_of(&args[1]).and_then(|l| l.is_const())) else { return Err(st) };
                let i = i as usize;
                while self.cases.len() <= i {
                    self.cases.push((0, 1));
                }
                self.cases[i].1 = n as usize;
                let v = self.cases[i].0;
                Ok(vec![(st, V::Int(Lin::k(v as i128)))])
            }
            // a function of the crate that is not public, by the name contracts use
            "harness::private" => {
                let Some(f) = self.lit_str(&st, &args[0]) else { return Err(st) };
                let defs: Vec<FnDef> = rustc_public::find_crates("liner").iter().flat_map(|c| c.fn_defs()).filter(|d| contract_name(&d.name()).as_deref() == Some(&f)).collect();
                let tys: Vec<GenericArgKind> = match gty(ga, 0).and_then(rigid) {
                    Some(RigidTy::Tuple(ts)) => ts.into_iter().map(GenericArgKind::Type).collect(),
                    _ => vec![],
                };
                if let [d] = &defs[..] {
                    if let (Ok(i), V::Agg(a)) = (Instance::resolve(*d, &GenericArgs(tys)), &args[1]) {
                        if let Some(bi) = self.body(i) {
                            let a: Vec<V> = a.to_vec();
                            if bi.body.arg_locals().len() == a.len() {
                                return Ok(self.run_body(i, bi, a, st));
                            }
                        }
                    }
                }
                self.stats.missing.insert(format!("function {}", f));
                Err(st)
            }
            // a copy of the value / whether two values are represented identically (no: they may still be equal)
            "harness::copy" => Ok(self.load_ref(st, &args[0])),
            "harness::same" => {
                let mut out = vec![];
                for (s, a) in self.load_ref(st, &args[0]) {
                    for (s, b) in self.load_ref(s, &args[1]) {
                        let r = same_v(&s, &a, &b);
                        out.push((s, vbool(r)));
                    }
                }
                Ok(out)
            }
            "harness::merge_point" => Ok(vec![(st, unit())]),
            "harness::is_tainted" => {
                let t = st.taint;
                Ok(vec![(st, vbool(t))])
            }
            "harness::show" => {
                if self.trace > 0 {
                    eprintln!("SHOW {}\n{}", args.iter().map(show).collect::<Vec<_>>().join(" ; "), show_state(&st));
                }
                Ok(vec![(st, unit())])
            }
            "harness::bytes_text" => {
                let mut out = vec![];
                for (s, x) in self.get_seq(st, &args[0]) {
                    if x.is_empty() {
                        out.push((s, seq(vec![])));
                        continue;
                    }
                    if let Some(b) = self.get_bytes(&s, &seq(x.clone())) {
                        let l: Vec<i128> = String::from_utf8_lossy(&b).chars().map(|c| c as i128).collect();
                        out.push((s, lit_seq(t_char(), l)));
                        continue;
                    }
                    if let [Seg::Sub(c, a, _)] = &x[..] {
                        if a.is_const() == Some(0) {
                            if let Some(t) = T.with(|t| t.borrow().bytes_src.get(c).cloned()) {
                                out.push((s, seq(t)));
                                continue;
                            }
                        }
                    }
                    out.push((s, fresh_val(rty, "bytes text", false)));
                }
                Ok(out)
            }
            "harness::args_text" => {
                // &Arguments -> String
                Ok(self.args_text(st, &args[0]).into_iter().map(|(s, x)| (s, seq(x))).collect())
            }
            _ => Err(st),
        }
    }
    pub fn call_closure(&mut self, st: State, fty: Ty, recv: V, args: Vec<V>, rty: Ty) -> Out<V> {
        if let Some(RigidTy::Closure(def, ga)) = rigid(fty) {
            if let Ok(i) = Instance::resolve_closure(def, &ga, ClosureKind::Fn) {
                if let Some(bi) = self.body(i) {
                    let mut a = vec![recv];
                    a.extend(args);
                    return self.run_body(i, bi, a, st);
                }
            }
        }
        vec![(st, fresh_val(rty, "closure", true))]
    }
    fn prim_trait(&mut self, st: State, tr: &str, m: &str, ga: &GenericArgs, args: &[V], atys: &[Ty], rty: Ty) -> R {
        let Some(sty) = gty(ga, 0) else { return Err(st) };
        let c = cls(sty);
        let last = c.rsplit("::").next().unwrap_or("").to_string();
        match (tr, m) {
            ("Iterator", "next") => {
                let r = self.iter_next(st, &args[0], sty, false);
                let st = match r {
                    Ok(o) => return Ok(o),
                    Err(s) => s,
                };
                if last == "Zip" {
                    let inner = adt_args(sty);
                    return self.model(st, "zip_next", &[gty(&inner, 0).unwrap(), gty(&inner, 1).unwrap()], args.to_vec(), atys, rty);
                }
                Err(st)
            }
            ("DoubleEndedIterator", "next_back") => self.iter_next(st, &args[0], sty, true),
            ("Iterator", "any" | "all" | "find" | "find_map" | "position" | "count" | "last" | "nth" | "fold" | "for_each" | "try_fold" | "try_for_each" | "max" | "min" | "max_by_key" | "min_by_key" | "max_by" | "min_by" | "advance_by" | "reduce" | "rposition" | "partition" | "eq" | "ne" | "is_empty_")
            | ("DoubleEndedIterator", "rfind" | "rfold" | "nth_back" | "try_rfold") => {
                if m == "count" {
                    // counting the rest of a plain sequence walk
                    if matches!(c.as_str(), "slice::Iter" | "str::Chars" | "vec::IntoIter" | "vec_deque::Iter" | "str::CharIndices") {
                        if let V::Agg(f) = &args[0] {
                            if let V::Seq(q) = &f[0] {
                                let l = st.cs.norm(&seq_len(q));
                                return Ok(vec![(st, V::Int(l))]);
                            }
                            return Ok(self.window(st, &f[0]).into_iter().map(|(s, (_, _, n))| (s, V::Int(n))).collect());
                        }
                    }
                }
                let mut tys = vec![];
                for g in &ga.0 {
                    if let GenericArgKind::Type(t) = g {
                        tys.push(*t);
                    }
                }
                let plain = matches!(c.as_str(), "slice::Iter" | "vec_deque::Iter" | "str::Chars") || (m == "nth" && c == "vec::IntoIter");
                if plain && self.models.contains_key(&format!("fast_{}", m)) {
                    return self.model(st, &format!("fast_{}", m), &tys, args.to_vec(), atys, rty);
                }
                self.model(st, &format!("iter_{}", m), &tys, args.to_vec(), atys, rty)
            }
            ("Iterator", "sum") => self.model(st, "iter_sum", &[sty], args.to_vec(), atys, rty),
            ("Iterator", "size_hint") => Ok(vec![(st, agg(vec![isym(fresh(Some(0), None, true, "hint")), fresh_val(match rigid(rty) { Some(RigidTy::Tuple(t)) => t[1], _ => rty }, "hint", true)]))]),
            ("ExactSizeIterator", "len") if matches!(c.as_str(), "slice::Iter" | "vec::IntoIter" | "vec_deque::Iter" | "slice::IterMut") => {
                let mut out = vec![];
                for (s, v) in self.load_ref(st, &args[0]) {
                    match &v {
                        V::Agg(f) => match &f[0] {
                            V::Seq(q) => {
                                let l = s.cs.norm(&seq_len(q));
                                out.push((s, V::Int(l)))
                            }
                            w => out.extend(self.window(s, w).into_iter().map(|(s, (_, _, n))| (s, V::Int(n)))),
                        },
                        _ => out.push((s, V::Top)),
                    }
                }
                Ok(out)
            }
            ("IntoIterator", "into_iter") => {
                match c.as_str() {
                    "vec::Vec" | "collections::VecDeque" | "vec_deque::VecDeque" | "array" => return Ok(vec![(st, agg(vec![args[0].clone()]))]),
                    _ => {}
                }
                if let Some(RigidTy::Ref(_, t, _)) = rigid(sty) {
                    if is_seq_ty(t) {
                        return Ok(self.window(st, &args[0]).into_iter().map(|(s, (p, lo, n))| (s, agg(vec![win(&p, lo, n)]))).collect());
                    }
                }
                // iterators themselves
                if adt_is_iter(&last) {
                    return Ok(vec![(st, args[0].clone())]);
                }
                Err(st)
            }
            ("FromIterator", "from_iter") => {
                let target = last.clone();
                let (Some(item), Some(it)) = (gty(ga, 1), gty(ga, 2)) else { return Err(st) };
                if !is_seq_name(&adt_name(sty)) {
                    return Err(st);
                }
                let item_is_plain = target != "String" || matches!(rigid(item), Some(RigidTy::Char));
                let st = if item_is_plain {
                    match self.drain_iter(st, &args[0], it) {
                        Ok(o) => return Ok(o.into_iter().map(|(s, x)| (s.clone(), seq(s.nseq(x)))).collect()),
                        Err(s) => s,
                    }
                } else {
                    st
                };
                let mname = if target == "String" {
                    match rigid(item) {
                        Some(RigidTy::Char) => "string_from_chars",
                        Some(RigidTy::Ref(_, t, _)) if matches!(rigid(t), Some(RigidTy::Char)) => "string_from_char_refs",
                        Some(RigidTy::Ref(_, t, _)) if matches!(rigid(t), Some(RigidTy::Str)) => "string_from_strs",
                        _ => "string_from_strings",
                    }
                } else if target == "VecDeque" {
                    "vecdeque_from_iter"
                } else if is_unsized_seq(item) || is_seq_name(&adt_name(item)) {
                    "vec_from_iter_abs"
                } else {
                    "vec_from_iter"
                };
                let tys = if mname.starts_with("string") { vec![it] } else { vec![item, it] };
                self.model(st, mname, &tys, args.to_vec(), atys, rty)
            }
            ("Extend", "extend") => {
                let (Some(item), Some(it)) = (gty(ga, 1), gty(ga, 2)) else { return Err(st) };
                if !is_seq_name(&adt_name(sty)) {
                    return Err(st);
                }
                let plain = match (last.as_str(), rigid(item)) {
                    ("String", Some(RigidTy::Char)) => true,
                    ("String", _) => false,
                    (_, Some(RigidTy::Ref(..))) => false,
                    _ => true,
                };
                let st = if plain {
                    match self.drain_iter(st, &args[1], it) {
                        Ok(o) => {
                            let mut out = vec![];
                            for (s, x) in o {
                                out.extend(self.append_all(s, &args[0], x).into_iter().map(|s| (s, unit())));
                            }
                            return Ok(out);
                        }
                        Err(s) => s,
                    }
                } else {
                    // extending by references to plain values copies them
                    let ci = cls(it);
                    if ci == "slice::Iter" || ci.starts_with('&') {
                        let w = match &args[1] {
                            V::Agg(a) if !a.is_empty() => a[0].clone(),
                            o => o.clone(),
                        };
                        if last != "String" {
                            let mut out = vec![];
                            for (s, x) in self.get_seq(st, &w) {
                                out.extend(self.append_all(s, &args[0], x).into_iter().map(|s| (s, unit())));
                            }
                            return Ok(out);
                        }
                    }
                    st
                };
                let e = seq_elem(sty).unwrap();
                match (last.as_str(), rigid(item)) {
                    ("String", Some(RigidTy::Char)) => self.model(st, "string_extend_chars", &[it], args.to_vec(), atys, rty),
                    ("String", Some(RigidTy::Ref(_, t, _))) if matches!(rigid(t), Some(RigidTy::Str)) => self.model(st, "string_extend_strs", &[it], args.to_vec(), atys, rty),
                    ("String", Some(RigidTy::Ref(_, t, _))) if matches!(rigid(t), Some(RigidTy::Char)) => self.model(st, "string_extend_char_refs", &[it], args.to_vec(), atys, rty),
                    ("String", _) => self.model(st, "string_extend_strings", &[it], args.to_vec(), atys, rty),
                    (_, Some(RigidTy::Ref(..))) => self.model(st, "vec_extend_refs", &[e, it], args.to_vec(), atys, rty),
                    ("VecDeque", _) => self.model(st, "vecdeque_extend", &[e, it], args.to_vec(), atys, rty),
                    _ => self.model(st, "vec_extend", &[e, it], args.to_vec(), atys, rty),
                }
            }
            ("Index", "index") | ("IndexMut", "index_mut") if is_seq_ty(sty) => {
                let ity = gty(ga, 1).unwrap();
                self.index(st, &args[0], &args[1], ity, sty, rty)
            }
            ("Deref", "deref") | ("DerefMut", "deref_mut") | ("AsRef", "as_ref") | ("AsMut", "as_mut") | ("Borrow", "borrow") | ("BorrowMut", "borrow_mut") if is_seq_ty(sty) => {
                // byte views of text are handled separately
                if let (Some(RigidTy::Str) | Some(RigidTy::Adt(..)), Some(p)) = (rigid(sty), pointee(rty)) {
                    if text_ty(sty) && !matches!(rigid(p), Some(RigidTy::Str)) {
                        return match rigid(p) {
                            Some(RigidTy::Slice(_)) => self.bytes_of(st, &args[0]),
                            _ => Ok(vec![(st, fresh_val(rty, "asref", false))]),
                        };
                    }
                }
                Ok(self.window(st, &args[0]).into_iter().map(|(s, (p, lo, n))| (s, win(&p, lo, n))).collect())
            }
            ("Clone", "clone") => {
                if is_seq_ty(sty) || int_bounds(sty).is_some() {
                    // deep values share nothing mutable
                    if is_unsized_seq(sty) {
                        return Err(st);
                    }
                    return Ok(self.load_ref(st, &args[0]));
                }
                match c.as_str() {
                    "slice::Iter" | "str::Chars" | "vec::IntoIter" | "str::CharIndices" => return Ok(self.load_ref(st, &args[0])),
                    _ => {}
                }
                match adt_info(sty) {
                    Some(i) if matches!(i.kind, AdtK::Atomic) => Ok(self.load_ref(st, &args[0])),
                    _ => Err(st),
                }
            }
            ("ToOwned", "to_owned") if is_seq_ty(sty) => Ok(self.get_seq(st, &args[0]).into_iter().map(|(s, x)| (s, seq(x))).collect()),
            ("Default", "default") if is_seq_name(&adt_name(sty)) => Ok(vec![(st, seq(vec![]))]),
            ("PartialEq", "eq" | "ne") => {
                let other = gty(ga, 1).unwrap_or(sty);
                if int_bounds(sty).is_some() {
                    let mut out = vec![];
                    for (s, a) in self.load_ref(st, &args[0]) {
                        for (s, b) in self.load_ref(s, &args[1]) {
                            out.extend(self.binop(s, if m == "eq" { BinOp::Eq } else { BinOp::Ne }, &a, &b, sty, false));
                        }
                    }
                    return Ok(out);
                }
                let strip = |t: Ty| -> (Ty, u32) {
                    let mut t = t;
                    let mut n = 0;
                    while let Some(RigidTy::Ref(_, x, _)) = rigid(t) {
                        t = x;
                        n += 1;
                    }
                    (t, n)
                };
                let (sa, na) = strip(sty);
                let (sb, nb) = strip(other);
                let cow = |t: Ty| adt_name(t).ends_with("Cow");
                if (is_seq_ty(sa) && is_seq_ty(sb)) && !cow(sa) {
                    let mut out = vec![];
                    for (s, a) in self.deref_n(st, &args[0], na) {
                        for (s, b) in self.deref_n(s, &args[1], nb) {
                            for (s, x) in self.get_seq(s, &a) {
                                for (s, y) in self.get_seq(s, &b) {
                                    for (s, v) in self.seq_eq(s, &x, &y, 0) {
                                        let v = if m == "ne" { negate_bool(&v) } else { v };
                                        out.push((s, v));
                                    }
                                }
                            }
                        }
                    }
                    return Ok(out);
                }
                if m == "ne" {
                    // default: !eq
                    let Some(RigidTy::FnDef(..)) = Some(RigidTy::Never) else {
                        return self.model(st, "ne_via_eq", &[sty, other], args.to_vec(), atys, rty);
                    };
                }
                Err(st)
            }
            ("Ord", "min" | "max") if int_bounds(sty).is_some() => {
                let (Some(a), Some(b)) = (self.lin_of(&args[0]), self.lin_of(&args[1])) else { return Err(st) };
                let (x, y) = self.fork_pred(st, &Con::le2(&a, &b));
                let mut out = vec![];
                let (p, q) = if m == "min" { (a, b) } else { (b, a) };
                if let Some(s) = x {
                    out.push((s, V::Int(p)));
                }
                if let Some(s) = y {
                    out.push((s, V::Int(q)));
                }
                Ok(out)
            }
            ("Ord", "cmp") | ("PartialOrd", "partial_cmp") if is_seq_ty(sty) || matches!(rigid(sty), Some(RigidTy::Ref(..))) => Ok(vec![(st, fresh_val(rty, "ord", false))]),
            ("Hash", "hash") => Ok(vec![(st, unit())]),
            ("ToString", "to_string") => Ok(self.fmt_value(st, &args[0], sty, false).into_iter().map(|(s, x)| (s.clone(), seq(s.nseq(x)))).collect()),
            ("Display", "fmt") | ("Debug", "fmt") => {
                if adt_name(sty).contains("liner::") && tr == "Display" {
                    return Err(st);
                }
                let mut out = vec![];
                for (s, x) in self.fmt_value(st, &args[0], sty, tr == "Debug") {
                    out.extend(self.fmt_write(s, &args[1], x, rty));
                }
                Ok(out)
            }
            ("Write", "write_fmt") => {
                // fmt::Write or io::Write
                if c.ends_with("String") || c.ends_with("Formatter") {
                    let mut out = vec![];
                    for (s, x) in self.args_text(st, &args[1]) {
                        out.extend(self.fmt_write(s, &args[0], x, rty));
                    }
                    return Ok(out);
                }
                let is_io = ty_name_deep(rty).contains("io") || !ty_name_deep(rty).contains("fmt");
                self.model(st, if is_io { "io_write_fmt" } else { "fmt_write_fmt" }, &[sty], args.to_vec(), atys, rty)
            }
            ("Write", "write_str") if c.ends_with("String") || c.ends_with("Formatter") => {
                let mut out = vec![];
                for (s, x) in self.get_seq(st, &args[1]) {
                    out.extend(self.fmt_write(s, &args[0], x, rty));
                }
                Ok(out)
            }
            ("Write", "write_char") if c.ends_with("String") || c.ends_with("Formatter") => Ok(self.fmt_write(st, &args[0], vec![Seg::El(args[1].clone())], rty)),
            ("Write", "write_all" | "flush") if (c.ends_with("BufWriter") || c.ends_with("fs::File") || c.ends_with("LineWriter")) && st.ghost.first().map_or(false, |v| !matches!(v, V::Undef)) => {
                if m == "flush" {
                    self.model(st, "fs_flush", &[], vec![], &[], rty)
                } else {
                    self.model(st, "fs_write_all", &[], vec![args[1].clone()], &[atys[1]], rty)
                }
            }
            ("Write", "write_all" | "write") if c.ends_with("Vec") => {
                let mut out = vec![];
                for (s, x) in self.get_seq(st, &args[1]) {
                    let n = s.cs.norm(&seq_len(&x));
                    let v = if m == "write" { ok(V::Int(n)) } else { ok(unit()) };
                    out.extend(self.append_all(s, &args[0], x).into_iter().map(|s| (s, v.clone())));
                }
                Ok(out)
            }
            ("Write", "flush") if c.ends_with("Vec") => Ok(vec![(st, ok(unit()))]),
            ("From", "from") if is_seq_ty(sty) => {
                let src = gty(ga, 1).unwrap_or(sty);
                if int_bounds(src).is_some() {
                    return Ok(vec![(st, seq(vec![Seg::El(args[0].clone())]))]);
                }
                match rigid(src) {
                    Some(RigidTy::Ref(_, t, _)) if is_seq_ty(t) => Ok(self.get_seq(st, &args[0]).into_iter().map(|(s, x)| (s, seq(x))).collect()),
                    Some(RigidTy::Array(..)) => Ok(vec![(st, args[0].clone())]),
                    _ if is_seq_name(&adt_name(src)) => Ok(vec![(st, args[0].clone())]),
                    _ if adt_name(src).contains("Cow") => self.model(st, "string_from_cow", &[], args.to_vec(), atys, rty),
                    _ => Err(st),
                }
            }
            ("From", "from") if int_bounds(sty).is_some() => {
                let src = gty(ga, 1).unwrap_or(sty);
                if int_bounds(src).is_some() {
                    if let V::Pred(_) = &args[0] {
                        let (a, b) = self.fork_bool(st, &args[0]);
                        return Ok(a.into_iter().map(|s| (s, kint(1))).chain(b.into_iter().map(|s| (s, kint(0)))).collect());
                    }
                    return Ok(vec![(st, args[0].clone())]);
                }
                Err(st)
            }
            ("From", "from") if adt_info(sty).map_or(false, |i| i.kind == AdtK::Atomic) => Ok(vec![(st, fresh_val(sty, "from", false))]),
            ("Add", "add") if c == "string::String" => {
                let mut out = vec![];
                let V::Seq(a) = &args[0] else { return Err(st) };
                for (s, x) in self.get_seq(st, &args[1]) {
                    let mut v = a.to_vec();
                    v.extend(x);
                    let v = s.nseq(v);
                    out.push((s, seq(v)));
                }
                Ok(out)
            }
            ("AddAssign", "add_assign") if c == "string::String" => {
                let mut out = vec![];
                for (s, x) in self.get_seq(st, &args[1]) {
                    out.extend(self.append_all(s, &args[0], x).into_iter().map(|s| (s, unit())));
                }
                Ok(out)
            }
            ("SliceIndex", _) => Err(st),
            _ => Err(st),
        }
    }
    fn deref_n(&mut self, st: State, v: &V, n: u32) -> Out<V> {
        let mut cur = vec![(st, v.clone())];
        for _ in 0..n {
            let mut nx = vec![];
            for (s, v) in cur {
                nx.extend(self.load_ref(s, &v));
            }
            cur = nx;
        }
        cur
    }
    /// write text to a fmt::Write target; succeeds for strings
    fn fmt_write(&mut self, st: State, target: &V, x: Vec<Seg>, _rty: Ty) -> Out<V> {
        let is_seq = match self.load_ref(st.clone(), target).into_iter().next() {
            Some((_, V::Seq(_))) => true,
            _ => false,
        };
        if is_seq {
            self.append_all(st, target, x).into_iter().map(|s| (s, ok(unit()))).collect()
        } else {
            // a formatter writing elsewhere
            vec![(st.clone(), ok(unit())), (st, err(unit()))]
        }
    }
    fn bytes_of(&mut self, st: State, v: &V) -> R {
        let mut out = vec![];
        for (mut s, x) in self.get_seq(st, v) {
            if let Some(l) = self.segs_lit(&x) {
                let b: Vec<i128> = l.bytes().map(|b| b as i128).collect();
                let n = b.len() as i128;
                let h = new_heap(lit_seq(Ty::unsigned_ty(UintTy::U8), b));
                out.push((s, V::Ref(Ptr { base: Base::Heap(h), path: Rc::new(vec![]), meta: Some((Lin::k(0), Lin::k(n))) })));
                continue;
            }
            let n = self.blen(&mut s, &x);
            let key = format!("bytes {:?}", x);
            let t = self.segs_taint(&x);
            let c = T.with(|t| t.borrow().memo_c.get(&key).cloned());
            let c = match c {
                Some(c) => c,
                None => {
                    let c = new_content(Some(Ty::unsigned_ty(UintTy::U8)), "bytes", t);
                    T.with(|t| t.borrow_mut().memo_c.insert(key, c));
                    c
                }
            };
            T.with(|t| t.borrow_mut().bytes_src.insert(c, x.clone()));
            let q = seq(vec![Seg::Sub(c, Lin::k(0), n.clone())]);
            let h = new_heap(seq(vec![]));
            s.set_base(Base::Heap(h), q);
            out.push((s, V::Ref(Ptr { base: Base::Heap(h), path: Rc::new(vec![]), meta: Some((Lin::k(0), n)) })));
        }
        Ok(out)
    }
    fn index(&mut self, st: State, recv: &V, idx: &V, ity: Ty, sty: Ty, _rty: Ty) -> R {
        let text = text_ty(sty);
        let mut out = vec![];
        if int_bounds(ity).is_some() {
            let Some(i) = self.lin_of(idx) else { return Err(st) };
            for (mut s, (p, lo, len)) in self.window(st, recv) {
                if self.require(&mut s, "C01", &Con::lt2(&i, &len), "index out of bounds") {
                    out.push((s, V::Ref(p.push(Pj::At(lo.add(&i))))));
                }
            }
            return Ok(out);
        }
        if text {
            for (mut s, (p, lo, len)) in self.window(st, recv) {
                let w = win(&p, lo.clone(), len.clone());
                for (mut s2, x) in self.get_seq(std::mem::take(&mut s), &w) {
                    let bl = self.blen(&mut s2, &x);
                    let Some((a, b)) = self.range(idx, ity, &bl) else {
                        s2.taint = true;
                        out.push((s2, w.clone()));
                        continue;
                    };
                    if !self.require(&mut s2, "C01", &Con::le2(&b, &bl), "string slice end out of range") {
                        continue;
                    }
                    if !self.require(&mut s2, "C01", &Con::le2(&a, &b), "string slice start after end") {
                        continue;
                    }
                    let ca = self.byte_to_char(&mut s2, &x, &a);
                    let cb = self.byte_to_char(&mut s2, &x, &b);
                    match (ca, cb) {
                        (Some(ca), Some(cb)) => {
                            self.note("C01", "string slice on a character boundary", 0);
                            let ln = cb.sub(&ca);
                            out.push((s2, win(&p, lo.add(&ca), ln)));
                        }
                        _ => {
                            let t = s2.taint || self.segs_taint(&x) || lin_taint(&a) || lin_taint(&b);
                            if t {
                                self.note("C01", "string slice on a character boundary", 2);
                            } else {
                                self.note("C01", "string slice on a character boundary", 1);
                                self.report(&s2, "C01", "string slice on a character boundary", &format!("cannot show that byte range {}..{} of {} lies on character boundaries", a.show(), b.show(), x.iter().map(show_seg).collect::<String>()));
                            }
                            let (s3, r) = {
                                let V::Seq(q) = fresh_seq(Some(t_char()), "slice", t) else { unreachable!() };
                                let n = seq_len(&q);
                                s2.assume(&Con::le2(&n, &len));
                                self.str_ref(s2, q.to_vec())
                            };
                            out.push((s3, r));
                        }
                    }
                }
            }
            return Ok(out);
        }
        for (mut s, (p, lo, len)) in self.window(st, recv) {
            let Some((a, b)) = self.range(idx, ity, &len) else {
                s.taint = true;
                out.push((s, win(&p, lo, len)));
                continue;
            };
            if !self.require(&mut s, "C01", &Con::le2(&b, &len), "slice end index out of range") {
                continue;
            }
            if !self.require(&mut s, "C01", &Con::le2(&a, &b), "slice start index after end") {
                continue;
            }
            out.push((s, win(&p, lo.add(&a), b.sub(&a))));
        }
        Ok(out)
    }
    fn prim_fn(&mut self, st: State, n: &str, ga: &GenericArgs, args: &[V], atys: &[Ty], rty: Ty) -> R {
        let meth = short_name(n).to_string();
        let owner = &n[..n.len().saturating_sub(meth.len() + 2)];
        let is_vec = owner.ends_with("vec::Vec") || owner.ends_with("::Vec");
        let is_string = owner.ends_with("string::String") || owner.ends_with("::String");
        let is_deque = owner.ends_with("VecDeque");
        let is_slice = owner.ends_with("<impl [T]>") || owner.contains("slice::<impl");
        let is_str = owner.ends_with("<impl str>");
        if is_vec || is_string || is_deque || is_slice || is_str {
            return self.prim_seq(st, &meth, owner, is_string || is_str, is_deque, ga, args, atys, rty);
        }
        let int = |i: usize| -> Option<Lin> {
            match args.get(i) {
                Some(V::Int(l)) => Some(l.clone()),
                _ => None,
            }
        };
        // an I/O error is known by its kind
        let ioe = |m: &str| meth == m && owner.contains("io::") && (owner.ends_with("Error") || owner.ends_with("Error>"));
        if ioe("new") && args.len() == 2 {
            return Ok(vec![(st, V::Agg(Rc::new(vec![args[0].clone()])))]);
        }
        if ioe("other") {
            return Ok(vec![(st, fresh_val(rty, "error", false))]);
        }
        if ioe("kind") {
            let mut out = vec![];
            for (s, v) in self.load_ref(st, &args[0]) {
                match v {
                    V::Agg(a) if a.len() == 1 && matches!(a[0], V::Enum(..)) => out.push((s, a[0].clone())),
                    _ => out.push((s, fresh_val(rty, "kind", false))),
                }
            }
            return Ok(out);
        }
        match n {
            "std::mem::replace" | "core::mem::replace" => {
                let Some(p) = deref(&args[0]) else { return Err(st) };
                let mut out = vec![];
                for (s, old) in st.load(&p) {
                    for s2 in s.store(&p, args[1].clone()) {
                        out.push((s2, old.clone()));
                    }
                }
                return Ok(out);
            }
            "std::mem::swap" | "std::ptr::swap" => {
                let (Some(p), Some(q)) = (deref(&args[0]), deref(&args[1])) else { return Err(st) };
                let mut out = vec![];
                for (s, a) in st.load(&p) {
                    for (s, b) in s.load(&q) {
                        for s in s.store(&p, b.clone()) {
                            for s in s.store(&q, a.clone()) {
                                out.push((s, unit()));
                            }
                        }
                    }
                }
                return Ok(out);
            }
            "std::ptr::read" | "intrinsic::read_via_copy" | "intrinsic::volatile_load" => return Ok(self.load_ref(st, &args[0])),
            "std::ptr::write" | "intrinsic::write_via_move" => {
                let Some(p) = deref(&args[0]) else { return Err(st) };
                return Ok(st.store(&p, args[1].clone()).into_iter().map(|s| (s, unit())).collect());
            }
            _ if owner.contains("num::NonZero") && matches!(meth.as_str(), "new" | "new_unchecked" | "get") => {
                let Some(a) = int(0) else { return Err(st) };
                let mut out = vec![];
                match meth.as_str() {
                    "new" => {
                        let mut z = st.clone();
                        if z.assume(&Con::eq(a.clone())) {
                            out.push((z, none()));
                        }
                        let mut nz = st;
                        if nz.assume(&Con::ne(a.clone())) {
                            out.push((nz, some(V::Int(a))));
                        }
                    }
                    _ => out.push((st, V::Int(a))),
                }
                return Ok(out);
            }
            "intrinsic::integer_min" | "intrinsic::integer_max" => {
                let (Some(a), Some(b)) = (int(0), int(1)) else { return Err(st) };
                let (lo, hi) = if n.ends_with("min") { (a.clone(), b.clone()) } else { (b.clone(), a.clone()) };
                let mut out = vec![];
                let mut s1 = st.clone();
                if s1.assume(&Con::le2(&a, &b)) {
                    out.push((s1, V::Int(lo)));
                }
                let mut s2 = st;
                if s2.assume(&Con::lt2(&b, &a)) {
                    out.push((s2, V::Int(hi)));
                }
                return Ok(out);
            }
            "std::mem::drop" | "std::mem::forget" | "core::mem::drop" => return Ok(vec![(st, unit())]),
            "std::hint::must_use" | "std::hint::black_box" | "intrinsic::black_box" => return Ok(vec![(st, args[0].clone())]),
            "intrinsic::assume" | "std::hint::assert_unchecked" => {
                let (a, _) = self.fork_bool(st, &args[0]);
                return Ok(a.into_iter().map(|s| (s, unit())).collect());
            }
            "intrinsic::likely" | "intrinsic::unlikely" => return Ok(vec![(st, args[0].clone())]),
            "intrinsic::discriminant_value" => {
                let mut out = vec![];
                let t = gty(ga, 0);
                for (s, v) in self.load_ref(st, &args[0]) {
                    out.extend(self.discr(s, &v, t));
                }
                return Ok(out);
            }
            "intrinsic::transmute" => {
                return Ok(vec![(st, args[0].clone())]);
            }
            "intrinsic::type_id" | "intrinsic::size_of" | "intrinsic::needs_drop" => return Ok(vec![(st, fresh_val(rty, "intr", false))]),
            "intrinsic::cold_path" | "intrinsic::assert_inhabited" => return Ok(vec![(st, unit())]),
            "intrinsic::three_way_compare" => {
                let t = gty(ga, 0).unwrap();
                return Ok(self.binop(st, BinOp::Cmp, &args[0], &args[1], t, false));
            }
            "std::boxed::Box::new" => {
                let h = new_heap(V::Undef);
                let mut st = st;
                st.set_base(Base::Heap(h), args[0].clone());
                return Ok(vec![(st, V::Ref(Ptr::new(Base::Heap(h))))]);
            }
            // vec![..]: the array is written through the box, as field 0 of field 1 of a union
            "std::boxed::Box::new_uninit" if rty_is_array_box(rty) => {
                let h = new_heap(V::Undef);
                let mut st = st;
                st.set_base(Base::Heap(h), V::Agg(Rc::new(vec![unit(), V::Agg(Rc::new(vec![V::Undef]))])));
                return Ok(vec![(st, V::Ref(Ptr::new(Base::Heap(h))))]);
            }
            "std::boxed::box_assume_init_into_vec_unsafe" => {
                if let Some(p) = deref(&args[0]) {
                    let p = p.push(Pj::F(1)).push(Pj::F(0));
                    let l = st.clone().load(&p);
                    if !l.is_empty() && l.iter().all(|(_, v)| matches!(v, V::Seq(..))) {
                        return Ok(l);
                    }
                    return Ok(vec![(st, fresh_val(rty, "vec", true))]);
                }
                return Err(st);
            }
            "std::cmp::min" | "std::cmp::max" | "core::cmp::min" | "core::cmp::max" => {
                if let (Some(a), Some(b)) = (int(0), int(1)) {
                    let (x, y) = self.fork_pred(st, &Con::le2(&a, &b));
                    let (p, q) = if meth == "min" { (a, b) } else { (b, a) };
                    let mut out = vec![];
                    if let Some(s) = x {
                        out.push((s, V::Int(p)));
                    }
                    if let Some(s) = y {
                        out.push((s, V::Int(q)));
                    }
                    return Ok(out);
                }
                return Err(st);
            }
            "std::iter::Iterator::rev" => {}
            "std::num::NonZero::new" => {
                if let Some(a) = int(0) {
                    let (x, y) = self.fork_pred(st, &Con::ge(a.addk(-1)));
                    let mut out = vec![];
                    if let Some(s) = x {
                        out.push((s, some(V::Int(a))));
                    }
                    if let Some(s) = y {
                        out.push((s, none()));
                    }
                    return Ok(out);
                }
            }
            "std::num::NonZero::get" | "std::num::NonZero::new_unchecked" => return Ok(vec![(st, args[0].clone())]),
            "std::fmt::format" | "alloc::fmt::format" => return Ok(self.args_text(st, &args[0]).into_iter().map(|(s, x)| (s.clone(), seq(s.nseq(x)))).collect()),
            "std::ops::RangeInclusive::new" => {
                return Ok(vec![(st, agg(vec![args[0].clone(), args[1].clone(), vbool(false)]))]);
            }
            "std::slice::from_ref" | "std::slice::from_mut" => return Err(st),
            "std::vec::from_elem" => {
                let Some(k) = int(1) else { return Err(st) };
                let e = gty(ga, 0);
                let c = new_content(e, "elems", has_taint(&args[0]) || lin_taint(&k));
                if k.is_const() == Some(0) {
                    return Ok(vec![(st, seq(vec![]))]);
                }
                if let Some(kk) = k.is_const() {
                    if kk <= 8 {
                        return Ok(vec![(st, seq((0..kk).map(|_| Seg::El(args[0].clone())).collect()))]);
                    }
                }
                return Ok(vec![(st, seq(vec![Seg::Sub(c, Lin::k(0), k)]))]);
            }
            _ => {}
        }
        if owner.starts_with("core::num::<impl") || owner.starts_with("std::num::<impl") {
            return self.prim_int(st, &meth, gty(ga, 0), args, atys, rty);
        }
        if owner.contains("<impl char>") || n.starts_with("std::char::") || n.starts_with("core::char::") {
            return self.prim_char(st, &meth, args, rty);
        }
        // formatting
        if n.contains("fmt::rt::Argument") {
            match meth.as_str() {
                "new_display" | "new_debug" | "new_lower_hex" | "new_upper_hex" | "new_octal" | "new_binary" => {
                    let t = gty(ga, 0).or_else(|| pointee(atys[0])).unwrap();
                    let mut out = vec![];
                    for (s, x) in self.fmt_value(st, &args[0], t, meth != "new_display") {
                        out.push((s.clone(), agg(vec![seq(s.nseq(x))])));
                    }
                    return Ok(out);
                }
                "from_usize" => return Ok(vec![(st, agg(vec![seq(vec![])]))]),
                "none" => {}
                _ => {}
            }
        }
        if owner.ends_with("fmt::Arguments") {
            match meth.as_str() {
                "new" => {
                    let mut out = vec![];
                    let tmpl = self.get_bytes(&st, &args[0]);
                    for (s, items) in self.get_seq(st, &args[1]) {
                        let texts: Option<Vec<Vec<Seg>>> = items
                            .iter()
                            .map(|g| match g {
                                Seg::El(V::Agg(a)) => match a.first() {
                                    Some(V::Seq(s)) => Some(s.to_vec()),
                                    _ => None,
                                },
                                _ => None,
                            })
                            .collect();
                        let r = match (&tmpl, texts) {
                            (Some(t), Some(x)) => render(t, &x),
                            _ => None,
                        };
                        match r {
                            Some(x) => {
                                let x = s.nseq(x);
                                out.push((s, agg(vec![seq(x)])))
                            }
                            None => {
                                for (s2, x) in self.unknown_text(s) {
                                    out.push((s2, agg(vec![seq(x)])));
                                }
                            }
                        }
                    }
                    return Ok(out);
                }
                "from_str" | "from_str_nonconst" => return Ok(self.get_seq(st, &args[0]).into_iter().map(|(s, x)| (s, agg(vec![seq(x)]))).collect()),
                "as_str" | "as_statically_known_str" | "estimated_capacity" => return Ok(vec![(st, fresh_val(rty, "argstr", false))]),
                _ => {}
            }
        }
        if owner.ends_with("fmt::Formatter") || n.contains("Formatter") {
            match meth.as_str() {
                "write_str" | "pad" => {
                    let mut out = vec![];
                    for (s, x) in self.get_seq(st, &args[1]) {
                        out.extend(self.fmt_write(s, &args[0], x, rty));
                    }
                    return Ok(out);
                }
                "write_char" => return Ok(self.fmt_write(st, &args[0], vec![Seg::El(args[1].clone())], rty)),
                "write_fmt" => {
                    let mut out = vec![];
                    for (s, x) in self.args_text(st, &args[1]) {
                        out.extend(self.fmt_write(s, &args[0], x, rty));
                    }
                    return Ok(out);
                }
                _ => return Ok(vec![(st, fresh_val(rty, "fmt", false))]),
            }
        }
        if n == "std::fmt::write" || n == "core::fmt::write" {
            return Ok(vec![(st.clone(), ok(unit())), (st, err(unit()))]);
        }
        // files, when the root watches them
        if st.ghost.first().map_or(false, |v| !matches!(v, V::Undef)) {
            let m = match n {
                "std::fs::File::create" => Some(("fs_create", vec![])),
                "std::fs::File::open" => Some(("fs_read_open", vec![])),
                "std::fs::OpenOptions::new" => Some(("fs_opts_new", vec![])),
                "std::fs::OpenOptions::append" => Some(("fs_opts_append", vec![0, 1])),
                "std::fs::OpenOptions::open" => Some(("fs_opts_open", vec![])),
                _ => None,
            };
            if let Some((m, a)) = m {
                let (x, t) = (a.iter().map(|i| args[*i].clone()).collect(), a.iter().map(|i| atys[*i]).collect::<Vec<_>>());
                return self.model(st, m, &[], x, &t, rty);
            }
            if n.starts_with("std::fs::OpenOptions::") {
                return Ok(vec![(st, args[0].clone())]);
            }
        }
        // the outside world: any result is possible
        let outside = [
            "std::fs::", "std::path::", "std::env::", "std::time::", "termion::", "unicode_width", "strip_ansi_escapes::", "std::io::", "alloc::io::", "core::io::", "bytecount::", "std::process::", "std::ffi::", "std::sync::", "std::hash::",
            "std::collections::hash", "std::fmt::", "core::fmt::",
        ];
        if outside.iter().any(|p| n.trim_start_matches('<').starts_with(p)) || n.contains("as unicode_width") {
            if matches!(rigid(rty), Some(RigidTy::Never)) {
                return Err(st);
            }
            if n.ends_with("IntoIterator::into_iter") {
                return Err(st);
            }
            // a width on the screen is bounded by what fits into memory
            if n.contains("unicode_width") && matches!(rigid(rty), Some(RigidTy::Uint(_))) {
                let w = Lin::s(fresh(Some(0), Some(1 << 41), false, "width"));
                return Ok(vec![(st, V::Int(w))]);
            }
            // mutable arguments that are plain data would be havocked; writers and handles are opaque
            return Ok(vec![(st, fresh_val(rty, &meth, false))]);
        }
        if n.ends_with("precondition_check") {
            return Ok(vec![(st, unit())]);
        }
        Err(st)
    }
    fn get_bytes(&mut self, st: &State, v: &V) -> Option<Vec<u8>> {
        let r = self.get_seq(st.clone(), v);
        let (_, segs) = r.into_iter().next()?;
        let mut out = vec![];
        for s in segs {
            match s {
                Seg::El(V::Int(l)) => out.push(l.is_const()? as u8),
                Seg::Sub(c, a, b) => {
                    let lit = T.with(|t| t.borrow().cont[c as usize].lit.clone())?;
                    for k in lit.get(a.is_const()? as usize..b.is_const()? as usize)? {
                        out.push(*k as u8);
                    }
                }
                _ => return None,
            }
        }
        Some(out)
    }
    fn prim_int(&mut self, st: State, m: &str, _t: Option<Ty>, args: &[V], atys: &[Ty], rty: Ty) -> R {
        let ty = atys.first().cloned().unwrap_or(rty);
        let ty = match rigid(ty) {
            Some(RigidTy::Ref(_, t, _)) => t,
            _ => ty,
        };
        let (lo, hi) = int_bounds(ty).unwrap_or((None, None));
        let (Some(V::Int(a)), b) = (args.first(), args.get(1)) else { return Ok(vec![(st, fresh_val(rty, m, true))]) };
        let bl = match b {
            Some(V::Int(b)) => Some(b.clone()),
            _ => None,
        };
        let res = match (m, &bl) {
            (_, None) => None,
            (x, Some(b)) if x.ends_with("_add") => Some(a.add(b)),
            (x, Some(b)) if x.ends_with("_sub") => Some(a.sub(b)),
            (x, Some(b)) if x.ends_with("_mul") => match (a.is_const(), b.is_const()) {
                (Some(k), _) => Some(b.mulk(k)),
                (_, Some(k)) => Some(a.mulk(k)),
                _ => Some(Lin::s(fresh(lo.filter(|x| *x >= 0), None, lin_taint(a) || lin_taint(b), "mul"))),
            },
            _ => None,
        };
        let Some(r) = res else {
            match m {
                "abs_diff" => {
                    let b = bl.unwrap();
                    let (x, y) = self.fork_pred(st, &Con::le2(a, &b));
                    let mut out = vec![];
                    if let Some(s) = x {
                        out.push((s, V::Int(b.sub(a))));
                    }
                    if let Some(s) = y {
                        out.push((s, V::Int(a.sub(&b))));
                    }
                    return Ok(out);
                }
                "is_power_of_two" | "count_ones" | "leading_zeros" | "trailing_zeros" | "from_str_radix" | "is_ascii_digit" | "is_ascii_alphabetic" | "is_ascii" | "to_ascii_lowercase" | "pow" | "checked_div" | "wrapping_neg" | "signum" | "rem_euclid" | "isqrt" | "div_ceil"
                | "is_ascii_whitespace" | "is_ascii_punctuation" | "is_ascii_control" | "is_ascii_alphanumeric" | "is_utf8_char_boundary" | "midpoint" | "abs" | "unsigned_abs" | "next_power_of_two" => return Ok(vec![(st, fresh_val(rty, m, lin_taint(a)))]),
                _ => {}
            }
            return Err(st);
        };
        let mut under = lo.map(|l| Con::lt2(&r, &Lin::k(l)));
        let mut over = hi.map(|h| Con::lt2(&Lin::k(h), &r));
        if under.as_ref().map_or(false, |u| st.cs.entails(&u.negate())) {
            under = None;
        }
        if over.as_ref().map_or(false, |u| st.cs.entails(&u.negate())) {
            over = None;
        }
        let t = lin_taint(&r);
        let mut out = vec![];
        let mut mk = |me: &mut Interp, s: State, k: u8| {
            // k: 0 fits, 1 under, 2 over
            let _ = me;
            let v = if m.starts_with("saturating") {
                V::Int(match k {
                    0 => r.clone(),
                    1 => Lin::k(lo.unwrap()),
                    _ => Lin::k(hi.unwrap()),
                })
            } else if m.starts_with("checked") {
                if k == 0 {
                    some(V::Int(r.clone()))
                } else {
                    none()
                }
            } else if m.starts_with("overflowing") {
                if k == 0 {
                    agg(vec![V::Int(r.clone()), vbool(false)])
                } else {
                    agg(vec![fresh_val(ty, "wrapped", t), vbool(true)])
                }
            } else if k == 0 {
                V::Int(r.clone())
            } else {
                fresh_val(ty, "wrapped", t)
            };
            let mut s = s;
            if under.is_some() || over.is_some() {
                s.taint |= t;
            }
            out.push((s, v));
        };
        let mut st = st;
        if let Some(u) = &under {
            let mut s = st.clone();
            if s.assume(u) {
                mk(self, s, 1);
            }
            if !st.assume(&u.negate()) {
                return Ok(out);
            }
        }
        if let Some(o) = &over {
            let mut s = st.clone();
            if s.assume(o) {
                mk(self, s, 2);
            }
            if !st.assume(&o.negate()) {
                return Ok(out);
            }
        }
        mk(self, st, 0);
        Ok(out)
    }
    fn prim_char(&mut self, st: State, m: &str, args: &[V], rty: Ty) -> R {
        let v = match args.first() {
            Some(V::Ref(p)) => {
                let r = st.clone().load(p);
                if r.len() == 1 {
                    r.into_iter().next().unwrap().1
                } else {
                    return Ok(vec![(st, fresh_val(rty, m, false))]);
                }
            }
            Some(v) => v.clone(),
            None => return Ok(vec![(st, fresh_val(rty, m, false))]),
        };
        let V::Int(l) = &v else { return Ok(vec![(st, fresh_val(rty, m, has_taint(&v)))]) };
        let l = st.cs.norm(l);
        let t = lin_taint(&l);
        if matches!(rigid(rty), Some(RigidTy::Bool)) {
            if let Some(k) = l.is_const() {
                if let Some(c) = char::from_u32(k as u32) {
                    let b = match m {
                        "is_alphanumeric" => Some(c.is_alphanumeric()),
                        "is_alphabetic" => Some(c.is_alphabetic()),
                        "is_whitespace" => Some(c.is_whitespace()),
                        "is_lowercase" => Some(c.is_lowercase()),
                        "is_uppercase" => Some(c.is_uppercase()),
                        "is_numeric" => Some(c.is_numeric()),
                        "is_control" => Some(c.is_control()),
                        "is_ascii_digit" => Some(c.is_ascii_digit()),
                        "is_ascii_alphabetic" => Some(c.is_ascii_alphabetic()),
                        "is_ascii" => Some(c.is_ascii()),
                        _ => None,
                    };
                    if let Some(b) = b {
                        return Ok(vec![(st, vbool(b))]);
                    }
                }
            }
            if args.len() == 1 {
                // ranges for the ASCII classes
                let rng = match m {
                    "is_ascii_digit" => Some((48, 57)),
                    "is_ascii" => Some((0, 127)),
                    _ => None,
                };
                if let Some((a, b)) = rng {
                    let mut out = vec![];
                    let mut s1 = st.clone();
                    if s1.assume(&Con::ge(l.addk(-a))) && s1.assume(&Con::ge(l.neg().addk(b))) {
                        s1.taint |= t;
                        out.push((s1, vbool(true)));
                    }
                    for c in [Con::ge(l.neg().addk(a - 1)), Con::ge(l.addk(-b - 1))] {
                        let mut s2 = st.clone();
                        if s2.assume(&c) {
                            s2.taint |= t;
                            out.push((s2, vbool(false)));
                        }
                    }
                    return Ok(out);
                }
                let b = self.memo_bool(format!("char {} {:?}", m, l), t, m);
                return Ok(vec![(st, b)]);
            }
        }
        match m {
            "to_digit" => {
                if let (Some(k), Some(V::Int(r))) = (l.is_const(), args.get(1)) {
                    if let (Some(c), Some(r)) = (char::from_u32(k as u32), r.is_const()) {
                        return Ok(vec![(
                            st,
                            match c.to_digit(r as u32) {
                                Some(d) => some(kint(d as i128)),
                                None => none(),
                            },
                        )]);
                    }
                }
                if let Some(V::Int(r)) = args.get(1) {
                    if r.is_const() == Some(10) {
                        // exactly the ASCII digits
                        let mut out = vec![];
                        let mut s1 = st.clone();
                        if s1.assume(&Con::ge(l.addk(-48))) && s1.assume(&Con::ge(l.neg().addk(57))) {
                            s1.taint |= t;
                            out.push((s1, some(V::Int(l.addk(-48)))));
                        }
                        for c in [Con::ge(l.neg().addk(47)), Con::ge(l.addk(-58))] {
                            let mut s2 = st.clone();
                            if s2.assume(&c) {
                                s2.taint |= t;
                                out.push((s2, none()));
                            }
                        }
                        return Ok(out);
                    }
                }
                let d = fresh(Some(0), Some(35), t, "digit");
                Ok(vec![(st.clone(), none()), (st, some(isym(d)))])
            }
            "len_utf8" => {
                let mut s = st;
                let n = self.blen(&mut s, &[Seg::El(v)]);
                Ok(vec![(s, V::Int(n))])
            }
            "to_uppercase" | "to_lowercase" => Ok(vec![(st, fresh_val(rty, m, false))]),
            "to_ascii_lowercase" | "to_ascii_uppercase" | "from_u32" | "from_digit" => Ok(vec![(st, fresh_val(rty, m, t))]),
            _ => Err(st),
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn prim_seq(&mut self, st: State, m: &str, owner: &str, text: bool, deque: bool, ga: &GenericArgs, args: &[V], atys: &[Ty], rty: Ty) -> R {
        if matches!(m, "push" | "push_back" | "push_front" | "insert") {
            if let (Some(v), Some(t)) = (args.last(), atys.last()) {
                crate::state::note_elem(v, *t);
            }
        }
        let int = |i: usize| -> Option<Lin> {
            match args.get(i) {
                Some(V::Int(l)) => Some(l.clone()),
                _ => None,
            }
        };
        let mut out: Out<V> = vec![];
        let bytes_arg = |me: &mut Interp, st: State, recv: &V, k: &Lin, what: &str| -> Out<(Vec<Seg>, Lin)> {
            // convert a byte offset to a character index
            let mut o = vec![];
            for (mut s, x) in me.get_seq(st, recv) {
                let bl = me.blen(&mut s, &x);
                if !me.require(&mut s, "C01", &Con::le2(k, &bl), what) {
                    continue;
                }
                match me.byte_to_char(&mut s, &x, k) {
                    Some(c) => o.push((s, (x, c))),
                    None => {
                        let t = s.taint || lin_taint(k) || me.segs_taint(&x);
                        if t {
                            me.note("C01", "byte offset on a character boundary", 2);
                        } else {
                            me.note("C01", "byte offset on a character boundary", 1);
                            me.report(&s, "C01", "byte offset on a character boundary", &format!("cannot show that byte offset {} is a character boundary", k.show()));
                        }
                        let n = Lin::s(fresh(Some(0), None, t, "charidx"));
                        if s.assume(&Con::le2(&n, &seq_len(&x))) {
                            o.push((s, (x, n)));
                        }
                    }
                }
            }
            o
        };
        match m {
            "new" | "with_capacity" | "new_in" if !owner.contains("<impl") => Ok(vec![(st, seq(vec![]))]),
            "push" | "push_back" | "push_mut" | "push_back_mut" => {
                for s in self.append_all(st, &args[0], vec![Seg::El(args[1].clone())]) {
                    out.push((s, unit()));
                }
                Ok(out)
            }
            "push_front" => {
                for (s, x) in self.get_seq(st, &args[0]) {
                    let mut v = vec![Seg::El(args[1].clone())];
                    v.extend(x);
                    for s2 in self.set_seq(s, &args[0], v) {
                        out.push((s2, unit()));
                    }
                }
                Ok(out)
            }
            "push_str" | "extend_from_slice" => {
                for (s, x) in self.get_seq(st, &args[1]) {
                    for s2 in self.append_all(s, &args[0], x) {
                        out.push((s2, unit()));
                    }
                }
                Ok(out)
            }
            "pop" | "pop_back" | "pop_front" => {
                for (s, x) in self.get_seq(st, &args[0]) {
                    let len = s.cs.norm(&seq_len(&x));
                    let t = lin_taint(&len);
                    let (a, b) = self.fork_pred(s, &Con::ge(len.addk(-1)));
                    if let Some(mut s) = b {
                        s.taint |= t;
                        out.push((s, none()));
                    }
                    if let Some(mut s) = a {
                        s.taint |= t;
                        let idx = if m == "pop_front" { Lin::k(0) } else { len.addk(-1) };
                        for (s, (l, e, r)) in s.seq_at(&x, &idx) {
                            let mut v = l;
                            v.extend(r);
                            for s2 in self.set_seq(s, &args[0], v) {
                                out.push((s2, some(e.clone())));
                            }
                        }
                    }
                }
                Ok(out)
            }
            "insert" | "insert_str" => {
                let Some(i) = int(1) else { return Err(st) };
                if text {
                    for (s, (x, ci)) in bytes_arg(self, st, &args[0], &i, "string insertion index out of range") {
                        let items: Out<Vec<Seg>> = if m == "insert_str" { self.get_seq(s, &args[2]) } else { vec![(s, vec![Seg::El(args[2].clone())])] };
                        for (s, it) in items {
                            for (s, (l, r)) in s.split(&x, &ci) {
                                let mut v = l;
                                v.extend(it.iter().cloned());
                                v.extend(r);
                                for s2 in self.set_seq(s, &args[0], v) {
                                    out.push((s2, unit()));
                                }
                            }
                        }
                    }
                    return Ok(out);
                }
                for (mut s, x) in self.get_seq(st, &args[0]) {
                    let len = s.cs.norm(&seq_len(&x));
                    if !self.require(&mut s, "C01", &Con::le2(&i, &len), "insertion index out of bounds") {
                        continue;
                    }
                    for (s, (l, r)) in s.split(&x, &i) {
                        let mut v = l;
                        v.push(Seg::El(args[2].clone()));
                        v.extend(r);
                        for s2 in self.set_seq(s, &args[0], v) {
                            out.push((s2, unit()));
                        }
                    }
                }
                Ok(out)
            }
            "remove" | "swap_remove" => {
                let Some(i) = int(1) else { return Err(st) };
                if text {
                    for (s, (x, ci)) in bytes_arg(self, st, &args[0], &i, "string removal index out of range") {
                        let mut s = s;
                        if !self.require(&mut s, "C01", &Con::lt2(&ci, &seq_len(&x)), "string removal index out of range") {
                            continue;
                        }
                        for (s, (l, e, r)) in s.seq_at(&x, &ci) {
                            let mut v = l;
                            v.extend(r);
                            for s2 in self.set_seq(s, &args[0], v) {
                                out.push((s2, e.clone()));
                            }
                        }
                    }
                    return Ok(out);
                }
                for (mut s, x) in self.get_seq(st, &args[0]) {
                    let len = s.cs.norm(&seq_len(&x));
                    let c = Con::lt2(&i, &len);
                    let mut inb = None;
                    if deque {
                        let (a, b) = self.fork_pred(s, &c);
                        if let Some(b) = b {
                            out.push((b, none()));
                        }
                        inb = a;
                    } else if self.require(&mut s, "C01", &c, "removal index out of bounds") {
                        inb = Some(s);
                    }
                    let Some(s) = inb else { continue };
                    for (s, (l, e, r)) in s.seq_at(&x, &i) {
                        let mut v = l;
                        v.extend(r);
                        for s2 in self.set_seq(s, &args[0], v) {
                            let e = if deque { some(e.clone()) } else { e.clone() };
                            out.push((s2, e));
                        }
                    }
                }
                Ok(out)
            }
            "truncate" | "split_off" | "resize" => {
                let Some(k) = int(1) else { return Err(st) };
                if m == "resize" {
                    return Err(st);
                }
                let items: Out<(Vec<Seg>, Lin)> = if text && m == "split_off" {
                    bytes_arg(self, st, &args[0], &k, "string split index out of range")
                } else if text {
                    // truncate beyond the end is a no-op
                    let mut o = vec![];
                    for (mut s, x) in self.get_seq(st, &args[0]) {
                        let bl = self.blen(&mut s, &x);
                        let (a, b) = self.fork_pred(s, &Con::le2(&k, &bl));
                        if let Some(s) = b {
                            out.push((s, unit()));
                        }
                        if let Some(s) = a {
                            o.extend(bytes_arg(self, s, &args[0], &k, "string truncation"));
                        }
                    }
                    o
                } else {
                    self.get_seq(st, &args[0]).into_iter().map(|(s, x)| (s, (x, k.clone()))).collect()
                };
                for (mut s, (x, k)) in items {
                    let len = s.cs.norm(&seq_len(&x));
                    if m == "split_off" && !self.require(&mut s, "C01", &Con::le2(&k, &len), "split index out of bounds") {
                        continue;
                    }
                    let (a, b) = self.fork_pred(s, &Con::le2(&k, &len));
                    if let Some(s) = b {
                        out.push((s, unit()));
                    }
                    if let Some(s) = a {
                        for (s, (l, r)) in s.split(&x, &k) {
                            for s2 in self.set_seq(s, &args[0], l.clone()) {
                                let v = if m == "split_off" { seq(r.clone()) } else { unit() };
                                out.push((s2, v));
                            }
                        }
                    }
                }
                Ok(out)
            }
            "clear" => {
                for s in self.set_seq(st, &args[0], vec![]) {
                    out.push((s, unit()));
                }
                Ok(out)
            }
            "len" => {
                if text {
                    for (mut s, x) in self.get_seq(st, &args[0]) {
                        let n = self.blen(&mut s, &x);
                        out.push((s, V::Int(n)));
                    }
                } else {
                    for (s, (_, _, n)) in self.window(st, &args[0]) {
                        out.push((s, V::Int(n)));
                    }
                }
                Ok(out)
            }
            "is_empty" => {
                for (s, (_, _, n)) in self.window(st, &args[0]) {
                    out.extend(self.bool_out(s, Con::eq(n)));
                }
                Ok(out)
            }
            "capacity" => Ok(vec![(st, isym(fresh(Some(0), None, false, "cap")))]),
            "reserve" | "shrink_to_fit" | "reserve_exact" | "make_contiguous_" => Ok(vec![(st, unit())]),
            "get" | "get_mut" | "get_unchecked" | "get_unchecked_mut" => {
                if let Some(i) = int(1) {
                    for (s, (p, lo, len)) in self.window(st, &args[0]) {
                        if m.starts_with("get_unchecked") {
                            out.push((s, V::Ref(p.push(Pj::At(lo.add(&i))))));
                        } else {
                            let t = lin_taint(&i) || lin_taint(&len);
                            for (mut s, v) in self.opt_elem(s, &p, &lo, &len, &i) {
                                s.taint |= t;
                                out.push((s, v));
                            }
                        }
                    }
                    return Ok(out);
                }
                let ity = atys[1];
                if text {
                    for (mut s, (p, lo, len)) in self.window(st, &args[0]) {
                        let w = win(&p, lo.clone(), len.clone());
                        for (mut s2, x) in self.get_seq(std::mem::take(&mut s), &w) {
                            let bl = self.blen(&mut s2, &x);
                            let Some((a, b)) = self.range(&args[1], ity, &bl) else { return Err(s2) };
                            let ca = self.byte_to_char(&mut s2, &x, &a);
                            let cb = self.byte_to_char(&mut s2, &x, &b);
                            match (ca, cb) {
                                (Some(ca), Some(cb)) => {
                                    let (y, n) = self.fork_pred(s2, &Con::le2(&a, &b));
                                    if let Some(n) = n {
                                        out.push((n, none()));
                                    }
                                    if let Some(y) = y {
                                        out.push((y, some(win(&p, lo.add(&ca), cb.sub(&ca)))));
                                    }
                                }
                                _ => {
                                    out.push((s2.clone(), none()));
                                    let V::Seq(q) = fresh_seq(Some(t_char()), "slice", false) else { unreachable!() };
                                    let n = seq_len(&q);
                                    s2.assume(&Con::le2(&n, &len));
                                    let (s3, r) = self.str_ref(s2, q.to_vec());
                                    out.push((s3, some(r)));
                                }
                            }
                        }
                    }
                    return Ok(out);
                }
                for (s, (p, lo, len)) in self.window(st, &args[0]) {
                    let Some((a, b)) = self.range(&args[1], ity, &len) else { return Err(s) };
                    if m.starts_with("get_unchecked") {
                        out.push((s, win(&p, lo.add(&a), b.sub(&a))));
                        continue;
                    }
                    let (x, y) = self.fork_pred(s, &Con::le2(&b, &len));
                    if let Some(y) = y {
                        out.push((y, none()));
                    }
                    if let Some(x) = x {
                        let (x, y) = self.fork_pred(x, &Con::le2(&a, &b));
                        if let Some(y) = y {
                            out.push((y, none()));
                        }
                        if let Some(x) = x {
                            out.push((x, some(win(&p, lo.add(&a), b.sub(&a)))));
                        }
                    }
                }
                Ok(out)
            }
            "first" | "last" | "first_mut" | "last_mut" | "front" | "back" | "front_mut" | "back_mut" => {
                for (s, (p, lo, len)) in self.window(st, &args[0]) {
                    let idx = if m.starts_with("first") || m.starts_with("front") { Lin::k(0) } else { len.addk(-1) };
                    let t = lin_taint(&len);
                    let (a, b) = self.fork_pred(s, &Con::ge(len.addk(-1)));
                    if let Some(mut s) = b {
                        s.taint |= t;
                        out.push((s, none()));
                    }
                    if let Some(mut s) = a {
                        s.taint |= t;
                        out.push((s, some(V::Ref(p.push(Pj::At(lo.add(&idx)))))));
                    }
                }
                Ok(out)
            }
            "split_first" | "split_last" | "split_first_mut" | "split_last_mut" => {
                for (s, (p, lo, len)) in self.window(st, &args[0]) {
                    let (a, b) = self.fork_pred(s, &Con::ge(len.addk(-1)));
                    if let Some(s) = b {
                        out.push((s, none()));
                    }
                    if let Some(s) = a {
                        let (e, r) = if m.starts_with("split_first") { (lo.clone(), win(&p, lo.addk(1), len.addk(-1))) } else { (lo.add(&len).addk(-1), win(&p, lo.clone(), len.addk(-1))) };
                        out.push((s, some(agg(vec![V::Ref(p.push(Pj::At(e))), r]))));
                    }
                }
                Ok(out)
            }
            "split_at" | "split_at_mut" | "split_at_checked" => {
                let Some(k) = int(1) else { return Err(st) };
                if text {
                    for (s, (p, lo, len)) in self.window(st, &args[0]) {
                        let w = win(&p, lo.clone(), len.clone());
                        for (s, (_, ci)) in bytes_arg(self, s, &w, &k, "string split index out of range") {
                            out.push((s, agg(vec![win(&p, lo.clone(), ci.clone()), win(&p, lo.add(&ci), len.sub(&ci))])));
                        }
                    }
                    return Ok(out);
                }
                for (mut s, (p, lo, len)) in self.window(st, &args[0]) {
                    if self.require(&mut s, "C01", &Con::le2(&k, &len), "split index out of bounds") {
                        out.push((s, agg(vec![win(&p, lo.clone(), k.clone()), win(&p, lo.add(&k), len.sub(&k))])));
                    }
                }
                Ok(out)
            }
            "as_slice" | "as_mut_slice" | "as_str" | "as_mut_str" | "as_ref" | "make_contiguous" | "borrow" => {
                for (s, (p, lo, n)) in self.window(st, &args[0]) {
                    out.push((s, win(&p, lo, n)));
                }
                Ok(out)
            }
            "iter" | "iter_mut" | "chars" => {
                for (s, (p, lo, n)) in self.window(st, &args[0]) {
                    out.push((s, agg(vec![win(&p, lo, n)])));
                }
                Ok(out)
            }
            "char_indices" => {
                for (s, (p, lo, n)) in self.window(st, &args[0]) {
                    out.push((s, agg(vec![win(&p, lo, n), kint(0)])));
                }
                Ok(out)
            }
            "as_bytes" => self.bytes_of(st, &args[0]),
            "bytes" => {
                let Ok(r) = self.bytes_of(st, &args[0]) else { unreachable!() };
                // as an owned walk over the bytes
                for (s, v) in r {
                    for (s, x) in self.get_seq(s, &v) {
                        out.push((s, agg(vec![seq(x)])));
                    }
                }
                Ok(out)
            }
            "into_bytes" => {
                let (s, r) = self.str_ref(st, match &args[0] {
                    V::Seq(s) => s.to_vec(),
                    _ => vec![],
                });
                let Ok(r) = self.bytes_of(s, &r) else { unreachable!() };
                for (s, v) in r {
                    for (s, x) in self.get_seq(s, &v) {
                        out.push((s, seq(x)));
                    }
                }
                Ok(out)
            }
            "drain" => {
                let rty_arg = atys[1];
                if text {
                    for (mut s, x) in self.get_seq(st, &args[0]) {
                        let bl = self.blen(&mut s, &x);
                        let Some((a, b)) = self.range(&args[1], rty_arg, &bl) else { return Err(s) };
                        if !self.require(&mut s, "C01", &Con::le2(&b, &bl), "drain range end out of bounds") || !self.require(&mut s, "C01", &Con::le2(&a, &b), "drain range start after end") {
                            continue;
                        }
                        for (s, (_, ca)) in bytes_arg(self, s, &args[0], &a, "drain range") {
                            for (s, (_, cb)) in bytes_arg(self, s, &args[0], &b, "drain range") {
                                for (s, mseg) in self.cut(s, &args[0], &ca, &cb) {
                                    out.push((s, agg(vec![seq(mseg)])));
                                }
                            }
                        }
                    }
                    return Ok(out);
                }
                for (mut s, (_, _, len)) in self.window(st, &args[0]) {
                    let Some((a, b)) = self.range(&args[1], rty_arg, &len) else { return Err(s) };
                    if !self.require(&mut s, "C01", &Con::le2(&b, &len), "drain range end out of bounds") || !self.require(&mut s, "C01", &Con::le2(&a, &b), "drain range start after end") {
                        continue;
                    }
                    for (s, mseg) in self.cut(s, &args[0], &a, &b) {
                        out.push((s, agg(vec![seq(mseg)])));
                    }
                }
                Ok(out)
            }
            "splice" => Err(st),
            "append" => {
                for (s, x) in self.get_seq(st, &args[1]) {
                    for s in self.append_all(s, &args[0], x.clone()) {
                        for s in self.set_seq(s, &args[1], vec![]) {
                            out.push((s, unit()));
                        }
                    }
                }
                Ok(out)
            }
            "to_vec" | "to_owned" | "to_string" | "into_boxed_slice" | "into_vec" | "into_string" | "to_vec_in" => {
                for (s, x) in self.get_seq(st, &args[0]) {
                    out.push((s, seq(x)));
                }
                Ok(out)
            }
            "retain" | "retain_mut" => {
                let e = gty(ga, 0).filter(|_| !text).unwrap_or(t_char());
                let f = *atys.last().unwrap();
                if text {
                    return self.model(st, "string_retain", &[f], args.to_vec(), atys, rty);
                }
                self.model(st, if deque { "vecdeque_retain" } else { "vec_retain" }, &[e, f], args.to_vec(), atys, rty)
            }
            "dedup" => {
                let e = gty(ga, 0).unwrap();
                // what remains of a vector of texts is not followed exactly
                let abs = is_unsized_seq(e) || is_seq_name(&adt_name(e));
                self.model(st, if abs { "vec_dedup_abs" } else { "vec_dedup" }, &[e], args.to_vec(), atys, rty)
            }
            "swap" => {
                let (Some(i), Some(j)) = (int(1), int(2)) else { return Err(st) };
                for (mut s, (p, lo, len)) in self.window(st, &args[0]) {
                    if !self.require(&mut s, "C01", &Con::lt2(&i, &len), "swap index out of bounds") || !self.require(&mut s, "C01", &Con::lt2(&j, &len), "swap index out of bounds") {
                        continue;
                    }
                    let pi = p.push(Pj::At(lo.add(&i)));
                    let pj = p.push(Pj::At(lo.add(&j)));
                    for (s, a) in s.load(&pi) {
                        for (s, b) in s.load(&pj) {
                            for s in s.store(&pi, b.clone()) {
                                for s in s.store(&pj, a.clone()) {
                                    out.push((s, unit()));
                                }
                            }
                        }
                    }
                }
                Ok(out)
            }
            "reverse" | "sort" | "sort_by" | "sort_by_key" | "sort_unstable" | "sort_unstable_by" | "sort_unstable_by_key" | "rotate_left" | "rotate_right" | "fill" => {
                // same length, same kind of elements, another order
                for (s, x) in self.get_seq(st, &args[0]) {
                    let len = s.cs.norm(&seq_len(&x));
                    if len.is_const().map_or(false, |k| k <= 1) && m != "fill" {
                        out.push((s, unit()));
                        continue;
                    }
                    let ty = x.iter().find_map(|g| if let Seg::Sub(c, ..) = g { cont_ty(*c) } else { None }).or(pointee(atys[0]).and_then(seq_elem));
                    let c = new_content(ty, "sorted", self.segs_taint(&x));
                    for s2 in self.set_seq(s, &args[0], vec![Seg::Sub(c, Lin::k(0), len.clone())]) {
                        out.push((s2, unit()));
                    }
                }
                Ok(out)
            }
            "concat" | "join" => {
                let V::Seq(q) = fresh_seq(seq_elem(rty), m, false) else { unreachable!() };
                // total length at least zero; elements come from the parts
                Ok(vec![(st, seq(q.to_vec()))])
            }
            "repeat" => Ok(vec![(st, fresh_seq(seq_elem(rty), m, false))]),
            "contains" if !text => {
                for (s, x) in self.get_seq(st, &args[0]) {
                    for (s, e) in self.load_ref(s, &args[1]) {
                        let len = s.cs.norm(&seq_len(&x));
                        // short literal lists are searched exactly
                        if let (Some(k), V::Int(l)) = (len.is_const(), &e) {
                            if k <= 12 {
                                let mut cur = vec![s];
                                for i in 0..k {
                                    let mut nx = vec![];
                                    for s in cur {
                                        for (s, (_, y, _)) in s.seq_at(&x, &Lin::k(i)) {
                                            let V::Int(y) = &y else {
                                                nx.push(s);
                                                continue;
                                            };
                                            let (a, b) = self.fork_pred(s, &Con::eq2(l, y));
                                            if let Some(a) = a {
                                                out.push((a, vbool(true)));
                                            }
                                            if let Some(b) = b {
                                                nx.push(b);
                                            }
                                        }
                                    }
                                    cur = nx;
                                }
                                for s in cur {
                                    out.push((s, vbool(false)));
                                }
                                continue;
                            }
                        }
                        let t = self.segs_taint(&x) || has_taint(&e);
                        let b = self.memo_bool(format!("contains {:?} {:?}", x, e), t, "contains");
                        let (y, n) = self.fork_bool(s, &b);
                        if let Some(n) = n {
                            out.push((n, vbool(false)));
                        }
                        if let Some(mut y) = y {
                            if y.assume(&Con::ge(len.addk(-1))) {
                                out.push((y, vbool(true)));
                            }
                        }
                    }
                }
                Ok(out)
            }
            "starts_with" | "ends_with" | "contains" if text || !matches!(rigid(atys[1]), Some(RigidTy::Closure(..))) => {
                // text patterns: str, String, char; slices
                let pat: Out<Vec<Seg>> = match rigid(atys[1]) {
                    Some(RigidTy::Char) => vec![(st, vec![Seg::El(args[1].clone())])],
                    Some(RigidTy::Ref(_, t, _)) if is_seq_ty(t) && !matches!(rigid(t), Some(RigidTy::Slice(_)) if text) => self.get_seq(st, &args[1]),
                    Some(RigidTy::Ref(_, t, _)) if matches!(rigid(t), Some(RigidTy::Ref(..))) => {
                        let mut o = vec![];
                        for (s, v) in self.load_ref(st, &args[1]) {
                            o.extend(self.get_seq(s, &v));
                        }
                        o
                    }
                    _ => return Ok(vec![(st, fresh_val(rty, m, false))]),
                };
                for (s, p) in pat {
                    for (s, x) in self.get_seq(s, &args[0]) {
                        let (lp, lx) = (s.cs.norm(&seq_len(&p)), s.cs.norm(&seq_len(&x)));
                        let p = s.nseq(p.clone());
                        let x = s.nseq(x);
                        if p == x || lp.is_const() == Some(0) {
                            out.push((s, vbool(true)));
                            continue;
                        }
                        let fits = Con::le2(&lp, &lx);
                        let (a, b) = self.fork_pred(s, &fits);
                        if let Some(b) = b {
                            out.push((b, vbool(false)));
                        }
                        let Some(s) = a else { continue };
                        // a literal prefix of the same text
                        if m == "starts_with" {
                            let r = s.clone().split(&x, &lp);
                            if r.len() == 1 {
                                let (s2, (l, _)) = r.into_iter().next().unwrap();
                                let l = s2.nseq(l);
                                if l == p {
                                    out.push((s2, vbool(true)));
                                    continue;
                                }
                                out.extend(self.seq_eq(s2, &l, &p, 0));
                                continue;
                            }
                        }
                        let t = self.segs_taint(&x) || self.segs_taint(&p);
                        let bv = self.memo_bool(format!("{} {:?} {:?}", m, x, p), t, m);
                        out.push((s, bv));
                    }
                }
                Ok(out)
            }
            "find" | "rfind" if text => {
                // Option<byte offset>: on a character boundary before the end
                for (mut s, x) in self.get_seq(st, &args[0]) {
                    out.push((s.clone(), none()));
                    // a found single character leaves at least one character after its start
                    let (chr, plen) = match rigid(atys[1]) {
                        Some(RigidTy::Char) => (if let V::Int(l) = &args[1] { Some(s.cs.norm(l)) } else { None }, 1),
                        Some(RigidTy::Closure(..)) | Some(RigidTy::Array(..)) => (None, 1),
                        _ => (None, 0),
                    };
                    let ascii = chr.as_ref().and_then(|l| l.is_const()).map_or(false, |k| k < 128);
                    if plen == 0 && x.len() > 1 {
                        let bl = self.blen(&mut s, &x);
                        let k = Lin::s(fresh(Some(0), None, false, m));
                        if s.assume(&Con::le2(&k, &bl)) {
                            out.push((s, some(V::Int(k))));
                        }
                        continue;
                    }
                    let mut bytes = Lin::k(0);
                    for g in &x {
                        let mut t = s.clone();
                        match g {
                            Seg::El(v) => {
                                let hit = match (v, &chr) {
                                    (V::Int(l), Some(c)) => t.assume(&Con::eq2(l, c)),
                                    _ => true,
                                };
                                if hit {
                                    let v = t.cs.norm(&bytes);
                                    out.push((t, some(V::Int(v))));
                                }
                            }
                            Seg::Sub(c, a, b) => {
                                let lit = T.with(|t| t.borrow().cont[*c as usize].lit.clone());
                                let absent = match (&lit, &chr) {
                                    (Some(l), Some(k)) => k.is_const().map_or(false, |k| !l.iter().any(|q| *q as i128 == k)),
                                    _ => false,
                                };
                                let i = Lin::s(fresh(Some(0), None, false, m));
                                if !absent && t.assume(&Con::le2(a, &i)) && t.assume(&Con::le2(&i.addk(plen), b)) {
                                    let e = self.byte_off(&mut t, *c, &i);
                                    let o = self.byte_off(&mut t, *c, a);
                                    let v = t.cs.norm(&bytes.add(&e).sub(&o));
                                    let mut ok = true;
                                    if let Some(k) = &chr {
                                        if let V::Int(r) = t.inst_read(*c, &i) {
                                            ok = t.assume(&Con::eq2(&r, k));
                                        }
                                        if ascii {
                                            let e1 = self.byte_off(&mut t, *c, &i.addk(1));
                                            ok = ok && t.assume(&Con::eq2(&e1, &e.addk(1)));
                                        }
                                    }
                                    if ok {
                                        out.push((t, some(V::Int(v))));
                                    }
                                }
                            }
                        }
                        let w = self.blen(&mut s, &[g.clone()]);
                        bytes = bytes.add(&w);
                    }
                }
                Ok(out)
            }
            "split" | "lines" | "split_whitespace" | "rsplit" | "splitn" | "split_terminator" | "split_inclusive" if text => {
                for (s, (_, _, n)) in self.window(st, &args[0]) {
                    out.push((s, agg(vec![V::Int(n)])));
                }
                Ok(out)
            }
            "trim" | "trim_end" | "trim_start" | "trim_end_matches" | "trim_start_matches" | "trim_matches" => {
                for (s, (p, lo, n)) in self.window(st, &args[0]) {
                    let mut s = s;
                    let a = Lin::s(fresh(Some(0), None, false, "trim"));
                    let b = Lin::s(fresh(Some(0), None, false, "trimlen"));
                    s.assume(&Con::le2(&a.add(&b), &n));
                    let a = if m.starts_with("trim_end") { Lin::k(0) } else { a };
                    let b = if m.starts_with("trim_start") { n.sub(&a) } else { b };
                    if !s.cs.bot {
                        out.push((s, win(&p, lo.add(&a), b)));
                    }
                }
                Ok(out)
            }
            "is_char_boundary" => {
                let Some(k) = int(1) else { return Err(st) };
                for (mut s, x) in self.get_seq(st, &args[0]) {
                    match self.byte_to_char(&mut s, &x, &k) {
                        Some(_) => out.push((s, vbool(true))),
                        None => {
                            // both answers possible; remember the boundary when true
                            out.push((s.clone(), vbool(false)));
                            if let [Seg::Sub(c, a, b)] = x.as_slice() {
                                let i = Lin::s(fresh(Some(0), None, false, "bnd"));
                                if s.assume(&Con::le2(a, &i)) && s.assume(&Con::le2(&i, b)) {
                                    let e = self.byte_off(&mut s, *c, &i);
                                    let o = self.byte_off(&mut s, *c, a);
                                    if s.assume(&Con::eq2(&e.sub(&o), &k)) {
                                        out.push((s, vbool(true)));
                                    }
                                }
                            } else {
                                s.taint = true;
                                out.push((s, vbool(true)));
                            }
                        }
                    }
                }
                Ok(out)
            }
            "to_lowercase" | "to_uppercase" | "replace" | "replacen" | "to_ascii_lowercase" | "to_ascii_uppercase" => Ok(vec![(st, fresh_seq(Some(t_char()), m, false))]),
            "parse" | "eq_ignore_ascii_case" | "matches" | "split_once" | "rsplit_once" | "strip_prefix" | "strip_suffix" => Ok(vec![(st, fresh_val(rty, m, false))]),
            "from_utf8" | "from_utf8_lossy" | "from_utf8_unchecked" => Ok(vec![(st, fresh_val(rty, m, false))]),
            "into_iter" if owner.contains("slice") => {
                for (s, (p, lo, n)) in self.window(st, &args[0]) {
                    out.push((s, agg(vec![win(&p, lo, n)])));
                }
                Ok(out)
            }
            "as_ptr" | "as_mut_ptr" => Ok(vec![(st, args[0].clone())]),
            _ => Err(st),
        }
    }
}
fn st_entails(s: &State, c: &Con) -> bool {
    s.cs.entails(c)
}
pub fn text_ty(t: Ty) -> bool {
    matches!(rigid(t), Some(RigidTy::Str)) || adt_name(t).ends_with("string::String") || adt_name(t).ends_with("::String")
}
pub fn adt_name(t: Ty) -> String {
    match rigid(t) {
        Some(RigidTy::Adt(d, _)) => d.name().to_string(),
        _ => String::new(),
    }
}
pub fn adt_args(t: Ty) -> GenericArgs {
    match rigid(t) {
        Some(RigidTy::Adt(_, a)) => a,
        _ => GenericArgs(vec![]),
    }
}
fn ty_name_deep(t: Ty) -> String {
    match rigid(t) {
        Some(RigidTy::Adt(d, a)) => {
            let mut s = d.name().to_string();
            for g in &a.0 {
                if let GenericArgKind::Type(t) = g {
                    s += " ";
                    s += &ty_name_deep(*t);
                }
            }
            s
        }
        _ => ty_name(t),
    }
}
fn adt_is_iter(last: &str) -> bool {
    matches!(
        last,
        "Iter" | "IterMut" | "Chars" | "CharIndices" | "IntoIter" | "Drain" | "Range" | "RangeInclusive" | "Map" | "Filter" | "FilterMap" | "Enumerate" | "Zip" | "Chain" | "Skip" | "Take" | "TakeWhile" | "SkipWhile" | "Rev" | "Cloned" | "Copied" | "Peekable" | "Windows" | "Split" | "Once"
            | "Lines"
    )
}
fn elem_seg(st: &State, v: &V) -> Seg {
    match origin(v) {
        Some((c, i)) => {
            let i = st.cs.norm(&i);
            Seg::Sub(c, i.clone(), i.addk(1))
        }
        None => Seg::El(v.clone()),
    }
}
fn elem_is_int(g: &Seg) -> bool {
    match g {
        Seg::El(V::Int(_)) => true,
        Seg::El(_) => false,
        Seg::Sub(c, ..) => cont_ty(*c).map_or(false, |t| int_bounds(t).is_some()),
    }
}
fn rty_of_next(_t: Ty) -> Option<Ty> {
    None
}
pub fn negate_bool(v: &V) -> V {
    match v {
        V::Int(l) => V::Int(l.neg().addk(1)),
        V::Pred(c) => V::Pred(c.negate()),
        _ => V::Top,
    }
}
/// split `path::Trait::method` into (Trait, method) for the traits we dispatch on
fn trait_method(n: &str) -> Option<(&str, &str)> {
    if n.starts_with('<') {
        return None;
    }
    let (rest, m) = n.rsplit_once("::")?;
    let tr = rest.rsplit("::").next()?;
    const TR: &[&str] = &[
        "Iterator", "DoubleEndedIterator", "ExactSizeIterator", "IntoIterator", "FromIterator", "Extend", "Index", "IndexMut", "Deref", "DerefMut", "AsRef", "AsMut", "Borrow", "BorrowMut", "Clone", "ToOwned", "Default", "PartialEq", "Ord", "PartialOrd", "Hash", "ToString", "Display", "Debug",
        "Write", "From", "Add", "AddAssign", "SliceIndex",
    ];
    if TR.contains(&tr) {
        Some((tr, m))
    } else {
        None
    }
}
/// expand a format template
fn render(t: &[u8], args: &[Vec<Seg>]) -> Option<Vec<Seg>> {
    let mut out = vec![];
    let mut i = 0;
    let mut next = 0usize;
    let lit = |b: &[u8], out: &mut Vec<Seg>| {
        let s = String::from_utf8_lossy(b).to_string();
        let l: Vec<i128> = s.chars().map(|c| c as i128).collect();
        if let V::Seq(s) = lit_seq(t_char(), l) {
            out.extend(s.iter().cloned());
        }
    };
    while i < t.len() {
        let n = t[i];
        i += 1;
        if n == 0 {
            return Some(out);
        }
        if n < 0x80 {
            lit(t.get(i..i + n as usize)?, &mut out);
            i += n as usize;
        } else if n == 0x80 {
            let len = u16::from_le_bytes([*t.get(i)?, *t.get(i + 1)?]) as usize;
            i += 2;
            lit(t.get(i..i + len)?, &mut out);
            i += len;
        } else if n == 0xC0 {
            out.extend(args.get(next)?.iter().cloned());
            next += 1;
        } else {
            let mut plain = true;
            if n & 1 != 0 {
                i += 4;
                plain = false;
            }
            if n & 2 != 0 {
                i += 2;
                plain = false;
            }
            if n & 4 != 0 {
                i += 2;
                plain = false;
            }
            let mut idx = next;
            if n & 8 != 0 {
                idx = u16::from_le_bytes([*t.get(i)?, *t.get(i + 1)?]) as usize;
                i += 2;
            }
            next = idx + 1;
            if plain {
                out.extend(args.get(idx)?.iter().cloned());
            } else {
                // padded: unknown text
                let V::Seq(s) = fresh_seq(Some(t_char()), "padded", false) else { unreachable!() };
                out.extend(s.iter().cloned());
            }
        }
    }
    Some(out)
}

pub fn rty_bool() -> Ty {
    Ty::bool_ty()
}

/// `liner::Editor::<C>::display_impl` -> `editor_display_impl`
fn rty_is_array_box(t: Ty) -> bool {
    format!("{:?}", t.kind()).contains("Array(")
}
/// the same type, or a type of the harness that mirrors a private one: the same fields and variants, called the same
fn same_shape(real: Ty, shadow: Ty) -> bool {
    if real == shadow {
        return true;
    }
    if let (Some(RigidTy::Tuple(a)), Some(RigidTy::Tuple(b))) = (rigid(real), rigid(shadow)) {
        return a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| same_shape(*x, *y));
    }
    let (Some(RigidTy::Adt(_, ra)), Some(RigidTy::Adt(_, sa))) = (rigid(real), rigid(shadow)) else { return false };
    let (Some(r), Some(s)) = (adt_info(real), adt_info(shadow)) else { return false };
    if r.kind != s.kind {
        return false;
    }
    if r.name == s.name || !matches!(r.kind, AdtK::Struct | AdtK::Enum) {
        let t = |g: &GenericArgs| -> Vec<Ty> { g.0.iter().filter_map(|a| if let GenericArgKind::Type(t) = a { Some(*t) } else { None }).collect() };
        let (x, y) = (t(&ra), t(&sa));
        return r.name == s.name && x.len() == y.len() && x.iter().zip(y.iter()).all(|(a, b)| same_shape(*a, *b));
    }
    if !s.name.contains("harness::") || r.variants.len() != s.variants.len() || r.discr != s.discr {
        return false;
    }
    if r.kind == AdtK::Enum && r.vnames != s.vnames {
        return false;
    }
    r.variants.iter().zip(s.variants.iter()).all(|(a, b)| a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x.0 == y.0 && same_shape(x.1, y.1)))
}
fn same_v(st: &State, a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Int(x), V::Int(y)) => x == y || st.cs.norm(x) == st.cs.norm(y),
        (V::Agg(x), V::Agg(y)) => Rc::ptr_eq(x, y) || (x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same_v(st, p, q))),
        (V::Enum(d, x), V::Enum(e, y)) => {
            st.cs.norm(d) == st.cs.norm(e)
                && x.len() == y.len()
                && x.iter().zip(y.iter()).all(|(p, q)| match (p, q) {
                    (None, None) => true,
                    (Some(p), Some(q)) => Rc::ptr_eq(p, q) || (p.len() == q.len() && p.iter().zip(q.iter()).all(|(p, q)| same_v(st, p, q))),
                    _ => false,
                })
        }
        (V::Seq(x), V::Seq(y)) => {
            Rc::ptr_eq(x, y)
                || (x.len() == y.len()
                    && x.iter().zip(y.iter()).all(|(p, q)| match (p, q) {
                        (Seg::El(p), Seg::El(q)) => same_v(st, p, q),
                        (Seg::Sub(c, a, b), Seg::Sub(d, e, f)) => c == d && st.cs.norm(a) == st.cs.norm(e) && st.cs.norm(b) == st.cs.norm(f),
                        _ => false,
                    }))
        }
        (V::Undef, V::Undef) => true,
        (V::Opq(x), V::Opq(y)) => x == y,
        (V::Ref(x), V::Ref(y)) => x == y,
        _ => false,
    }
}
pub fn contract_name(n: &str) -> Option<String> {
    let mut s = String::new();
    let mut d = 0;
    for c in n.chars() {
        match c {
            '<' => d += 1,
            '>' => d -= 1,
            c if d == 0 => s.push(c),
            _ => {}
        }
    }
    if n.starts_with('<') || n.contains("{closure") {
        return None;
    }
    let p: Vec<&str> = s.split("::").filter(|x| !x.is_empty()).collect();
    if p.len() < 2 {
        return None;
    }
    Some(format!("{}_{}", p[p.len() - 2].to_lowercase(), p[p.len() - 1]))
}
fn generics_count(d: &FnDef) -> usize {
    match d.ty().kind() {
        TyKind::RigidTy(RigidTy::FnDef(_, a)) => a.0.iter().filter(|g| matches!(g, GenericArgKind::Type(_))).count(),
        _ => 0,
    }
}
