//! Abstract states: memory, sequences, garbage collection and join.
use crate::lin::*;
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Vec<V>>>,
    pub heap: Rc<BTreeMap<HId, V>>,
    pub ghost: Rc<Vec<V>>,
    pub cs: Cs,
    pub econs: Rc<BTreeMap<CId, Vec<Con>>>,
    pub ord: Rc<BTreeSet<CId>>,
    pub reads: Rc<BTreeSet<(CId, Lin)>>,
    pub taint: bool,
}
impl Default for State {
    fn default() -> Self {
        State {
            frames: vec![],
            heap: Rc::new(BTreeMap::new()),
            ghost: Rc::new(vec![]),
            cs: Cs::default(),
            econs: Rc::new(BTreeMap::new()),
            ord: Rc::new(BTreeSet::new()),
            reads: Rc::new(BTreeSet::new()),
            taint: false,
        }
    }
}

pub type Out<X> = Vec<(State, X)>;

impl State {
    pub fn base(&mut self, b: Base) -> V {
        match b {
            Base::Local(d, l) => self.frames.get(d as usize).and_then(|f| f.get(l as usize)).cloned().unwrap_or(V::Undef),
            Base::Heap(h) => {
                if let Some(v) = self.heap.get(&h) {
                    return v.clone();
                }
                let v = heap_init(h);
                Rc::make_mut(&mut self.heap).insert(h, v.clone());
                v
            }
        }
    }
    pub fn set_base(&mut self, b: Base, v: V) {
        match b {
            Base::Local(d, l) => {
                let f = Rc::make_mut(&mut self.frames[d as usize]);
                f[l as usize] = v;
            }
            Base::Heap(h) => {
                Rc::make_mut(&mut self.heap).insert(h, v);
            }
        }
    }
    pub fn assume(&mut self, c: &Con) -> bool {
        self.cs.add(c);
        !self.cs.bot
    }
    /// read element idx of content c, instantiating what is known about every element
    pub fn inst_read(&mut self, c: CId, idx: &Lin) -> V {
        let idx = self.cs.norm(idx);
        let v = read_content(c, &idx);
        let lit = T.with(|t| t.borrow().cont[c as usize].lit.is_some());
        if lit {
            return v;
        }
        if !self.reads.contains(&(c, idx.clone())) {
            if self.ord.contains(&c) {
                if let Some((a1, b1)) = pair_of(&v) {
                    let prev: Vec<Lin> = self.reads.iter().filter(|r| r.0 == c).map(|r| r.1.clone()).collect();
                    for j in prev {
                        let d = self.cs.norm(&idx.sub(&j));
                        if let Some((a2, b2)) = pair_of(&read_content(c, &self.cs.norm(&j))) {
                            if self.cs.entails(&Con::ge(d.addk(-1))) {
                                self.cs.add(&Con::le2(&b2, &a1));
                            } else if self.cs.entails(&Con::ge(d.neg().addk(-1))) {
                                self.cs.add(&Con::le2(&b1, &a2));
                            }
                        }
                    }
                }
            }
            Rc::make_mut(&mut self.reads).insert((c, idx.clone()));
        }
        if let Some(ec) = self.econs.get(&c).cloned() {
            if let Some(rep) = cont_rep(c) {
                let mut m: HashMap<Sym, Lin> = HashMap::new();
                pair_lins(&rep, &v, &mut |a, b| {
                    if let Some((s, 0)) = a.as_sym_plus() {
                        m.insert(s, b.clone());
                    }
                });
                for con in ec.iter() {
                    let c2 = con.map(&|s| m.get(&s).cloned());
                    self.cs.add(&c2);
                }
            }
        }
        v
    }
    pub fn load(self, p: &Ptr) -> Out<V> {
        let mut st = self;
        let v = st.base(p.base);
        load_rec(st, v, &p.path)
    }
    pub fn load_simple(&mut self, p: &Ptr) -> Option<V> {
        let mut v = self.base(p.base);
        for j in p.path.iter() {
            match j {
                Pj::At(_) => return None,
                _ => v = proj(&v, j),
            }
        }
        Some(v)
    }
    pub fn store(self, p: &Ptr, nv: V) -> Vec<State> {
        let mut st = self;
        let v = st.base(p.base);
        let b = p.base;
        store_rec(st, v, &p.path, nv)
            .into_iter()
            .map(|(mut s, v)| {
                s.set_base(b, v);
                s
            })
            .collect()
    }

    // ------------------------------------------------------------ sequences
    /// normalise a segment list: drop empty runs, fuse contiguous ones
    pub fn nseq(&self, s: Vec<Seg>) -> Vec<Seg> {
        let mut out: Vec<Seg> = Vec::with_capacity(s.len());
        for x in s {
            let x = match x {
                Seg::El(v) => match origin(&v) {
                    Some((c, i)) => {
                        let i = self.cs.norm(&i);
                        Seg::Sub(c, i.clone(), i.addk(1))
                    }
                    None => Seg::El(v),
                },
                Seg::Sub(c, a, b) => {
                    let a = self.cs.norm(&a);
                    let b = self.cs.norm(&b);
                    if a == b {
                        continue;
                    }
                    Seg::Sub(c, a, b)
                }
            };
            if let (Some(Seg::Sub(c1, a1, b1)), Seg::Sub(c2, a2, b2)) = (out.last().cloned(), &x) {
                if c1 == *c2 && self.cs.norm(&b1) == *a2 {
                    out.pop();
                    out.push(Seg::Sub(c1, a1, b2.clone()));
                    continue;
                }
            }
            out.push(x);
        }
        out
    }
    /// split a sequence at `idx`, forking where the position is not determined
    pub fn split(self, segs: &[Seg], idx: &Lin) -> Out<(Vec<Seg>, Vec<Seg>)> {
        let mut out = vec![];
        split_rec(self, segs, 0, idx.clone(), vec![], &mut out);
        out
    }
    /// (left, element, right) at idx
    pub fn seq_at(self, segs: &[Seg], idx: &Lin) -> Out<(Vec<Seg>, V, Vec<Seg>)> {
        let mut out = vec![];
        for (st, (l, r)) in self.split(segs, idx) {
            for (mut st, (m, r2)) in st.split(&r, &Lin::k(1)) {
                // m has exactly one element
                let v = match m.first() {
                    Some(Seg::El(v)) => v.clone(),
                    Some(Seg::Sub(c, a, _)) => st.inst_read(*c, a),
                    None => V::Top,
                };
                out.push((st, (l.clone(), v, r2)));
            }
        }
        out
    }
}

fn split_rec(mut st: State, segs: &[Seg], i: usize, rem: Lin, mut left: Vec<Seg>, out: &mut Out<(Vec<Seg>, Vec<Seg>)>) {
    let mut i = i;
    let mut rem = st.cs.norm(&rem);
    loop {
        if rem.is_const() == Some(0) || st.cs.entails(&Con::ge(rem.neg())) {
            let right = segs[i..].to_vec();
            let l = st.nseq(left);
            out.push((st, (l, right)));
            return;
        }
        if i >= segs.len() {
            // past the end: clamp (the caller checks bounds)
            let l = st.nseq(left);
            out.push((st, (l, vec![])));
            return;
        }
        let len = seg_len(&segs[i]);
        let past = Con::le2(&len, &rem);
        if st.cs.entails(&past) {
            left.push(segs[i].clone());
            rem = st.cs.norm(&rem.sub(&len));
            i += 1;
            continue;
        }
        let inside = Con::le2(&rem, &len);
        if let Seg::Sub(c, a, b) = &segs[i] {
            if st.cs.entails(&inside) {
                let mid = a.add(&rem);
                left.push(Seg::Sub(*c, a.clone(), mid.clone()));
                let mut right = vec![Seg::Sub(*c, mid, b.clone())];
                right.extend_from_slice(&segs[i + 1..]);
                let l = st.nseq(left);
                let r = st.nseq(right);
                out.push((st, (l, r)));
                return;
            }
        }
        // fork
        let mut s1 = st.clone();
        if s1.assume(&past.negate()) {
            split_rec(s1, segs, i, rem.clone(), left.clone(), out);
        }
        if st.assume(&past) {
            split_rec(st, segs, i, rem, left, out);
        }
        return;
    }
}

pub fn proj(v: &V, j: &Pj) -> V {
    match (v, j) {
        (V::Agg(a), Pj::F(i)) => a.get(*i as usize).cloned().unwrap_or(V::Top),
        (V::Enum(_, p), Pj::Dc(i)) => match p.get(*i as usize) {
            Some(Some(x)) => V::Agg(x.clone()),
            _ => V::Undef,
        },
        // newtypes around a box pointer
        (V::Ref(_), Pj::F(_)) => v.clone(),
        (V::Opq(o), Pj::F(_)) => match expand(*o) {
            Some(x) => x,
            None => V::Top,
        },
        (V::Undef, _) => V::Undef,
        _ => V::Top,
    }
}
fn load_rec(mut st: State, v: V, path: &[Pj]) -> Out<V> {
    let mut v = v;
    for (n, j) in path.iter().enumerate() {
        match j {
            Pj::At(idx) => {
                let V::Seq(s) = &v else { return vec![(st, V::Top)] };
                let r = st.seq_at(s, idx);
                let rest = &path[n + 1..];
                let mut out = vec![];
                for (s2, (_, e, _)) in r {
                    if rest.is_empty() {
                        out.push((s2, e));
                    } else {
                        out.extend(load_rec(s2, e, rest));
                    }
                }
                return out;
            }
            _ => v = proj(&v, j),
        }
    }
    if let V::Int(l) = &v {
        if !l.t.is_empty() {
            v = V::Int(st.cs.norm(l));
        }
    }
    let _ = &mut st;
    vec![(st, v)]
}
fn store_rec(st: State, v: V, path: &[Pj], nv: V) -> Out<V> {
    if path.is_empty() {
        return vec![(st, nv)];
    }
    match (&v, &path[0]) {
        (V::Agg(a), Pj::F(i)) => {
            let i = *i as usize;
            let old = a.get(i).cloned().unwrap_or(V::Undef);
            let r = store_rec(st, old, &path[1..], nv);
            r.into_iter()
                .map(|(s, x)| {
                    let mut a2 = (**a).clone();
                    while a2.len() <= i {
                        a2.push(V::Undef);
                    }
                    a2[i] = x;
                    (s, V::Agg(Rc::new(a2)))
                })
                .collect()
        }
        (V::Enum(d, p), Pj::Dc(i)) => {
            let i = *i as usize;
            let old = match p.get(i) {
                Some(Some(x)) => V::Agg(x.clone()),
                _ => V::Agg(Rc::new(vec![])),
            };
            let r = store_rec(st, old, &path[1..], nv);
            r.into_iter()
                .map(|(s, x)| {
                    let mut p2 = (**p).clone();
                    while p2.len() <= i {
                        p2.push(None);
                    }
                    if let V::Agg(x) = x {
                        p2[i] = Some(x);
                    }
                    (s, V::Enum(d.clone(), Rc::new(p2)))
                })
                .collect()
        }
        (V::Undef, Pj::F(i)) => {
            // building a struct field by field
            let i = *i as usize;
            let r = store_rec(st, V::Undef, &path[1..], nv);
            r.into_iter()
                .map(|(s, x)| {
                    let mut a2 = vec![V::Undef; i + 1];
                    a2[i] = x;
                    (s, V::Agg(Rc::new(a2)))
                })
                .collect()
        }
        (V::Seq(s), Pj::At(idx)) => {
            let mut out = vec![];
            for (s2, (l, e, r)) in st.seq_at(s, idx) {
                for (s3, e2) in store_rec(s2, e, &path[1..], nv.clone()) {
                    let mut segs = l.clone();
                    segs.push(Seg::El(e2));
                    segs.extend(r.iter().cloned());
                    let n = s3.nseq(segs);
                    out.push((s3, seq(n)));
                }
            }
            out
        }
        _ => vec![(st, V::Top)],
    }
}

/// parallel walk over two values of the same shape
pub fn pair_lins(a: &V, b: &V, f: &mut dyn FnMut(&Lin, &Lin)) {
    match (a, b) {
        (V::Int(x), V::Int(y)) => f(x, y),
        (V::Agg(x), V::Agg(y)) => {
            for (p, q) in x.iter().zip(y.iter()) {
                pair_lins(p, q, f);
            }
        }
        (V::Enum(d, x), V::Enum(e, y)) => {
            f(d, e);
            for (p, q) in x.iter().zip(y.iter()) {
                if let (Some(p), Some(q)) = (p, q) {
                    for (p, q) in p.iter().zip(q.iter()) {
                        pair_lins(p, q, f);
                    }
                }
            }
        }
        (V::Seq(x), V::Seq(y)) => {
            if x.len() == y.len() {
                for (p, q) in x.iter().zip(y.iter()) {
                    match (p, q) {
                        (Seg::El(p), Seg::El(q)) => pair_lins(p, q, f),
                        (Seg::Sub(_, a, b), Seg::Sub(_, c, d)) => {
                            f(a, c);
                            f(b, d);
                        }
                        _ => {}
                    }
                }
            }
        }
        _ => {}
    }
}

// ---------------------------------------------------------------- garbage collection
pub struct Live {
    pub syms: HashSet<Sym>,
    pub conts: HashSet<CId>,
}
impl State {
    /// turn stored predicates into 0/1 symbols, normalise values, drop what is unreachable and
    /// project the constraints on what remains
    pub fn gc(&mut self) {
        if self.cs.bot {
            return;
        }
        let mut cs = std::mem::take(&mut self.cs);
        {
            let mut fix = |v: &V| -> V { norm_val(&mut cs, v) };
            for f in self.frames.iter_mut() {
                if f.iter().any(|v| !matches!(v, V::Undef)) {
                    let n: Vec<V> = f.iter().map(|v| fix(v)).collect();
                    if n != **f {
                        *f = Rc::new(n);
                    }
                }
            }
            let h: BTreeMap<HId, V> = self.heap.iter().map(|(k, v)| (*k, fix(v))).collect();
            self.heap = Rc::new(h);
            let g: Vec<V> = self.ghost.iter().map(|v| fix(v)).collect();
            self.ghost = Rc::new(g);
        }
        self.cs = cs;
        if self.cs.bot {
            return;
        }
        // reachability
        let mut hs: BTreeSet<HId> = BTreeSet::new();
        let mut todo: Vec<HId> = vec![];
        let mut live = Live { syms: HashSet::new(), conts: HashSet::new() };
        {
            let mut visit = |v: &V, todo: &mut Vec<HId>| {
                walk(v, &mut |i| match i {
                    Item::Lin(l) => {
                        for p in &l.t {
                            live.syms.insert(p.0);
                        }
                    }
                    Item::Cont(c) => {
                        live.conts.insert(c);
                    }
                    Item::Ptr(p) => {
                        if let Base::Heap(h) = p.base {
                            if hs.insert(h) {
                                todo.push(h);
                            }
                        }
                    }
                    Item::Opq(o) => {
                        // a lazily expanded pointer keeps its target alive
                        let e = T.with(|t| t.borrow().opq[o as usize].exp.clone());
                        if let Some(V::Ref(p)) = e {
                            if let Base::Heap(h) = p.base {
                                if hs.insert(h) {
                                    todo.push(h);
                                }
                            }
                            if let Some((a, b)) = &p.meta {
                                for q in a.t.iter().chain(b.t.iter()) {
                                    live.syms.insert(q.0);
                                }
                            }
                        }
                    }
                })
            };
            for f in self.frames.iter() {
                for v in f.iter() {
                    visit(v, &mut todo);
                }
            }
            for v in self.ghost.iter() {
                visit(v, &mut todo);
            }
            let mut add: Vec<(HId, V)> = vec![];
            while let Some(h) = todo.pop() {
                let v = match self.heap.get(&h) {
                    Some(v) => v.clone(),
                    None => {
                        let v = heap_init(h);
                        let v = norm_val(&mut self.cs, &v);
                        add.push((h, v.clone()));
                        v
                    }
                };
                visit(&v, &mut todo);
            }
            if !add.is_empty() {
                let m = Rc::make_mut(&mut self.heap);
                for (h, v) in add {
                    m.insert(h, v);
                }
            }
        }
        if self.heap.keys().any(|k| !hs.contains(k)) {
            let m = Rc::make_mut(&mut self.heap);
            m.retain(|k, _| hs.contains(k));
        }
        // element constraints of live contents
        let mut ec: BTreeMap<CId, Vec<Con>> = BTreeMap::new();
        for (c, v) in self.econs.iter() {
            if live.conts.contains(c) {
                let reps = rep_syms(*c);
                let n: Vec<Con> = v.iter().map(|k| self.cs.normc(k)).filter(|k| k.triv() != Some(true)).collect();
                for k in &n {
                    for p in &k.l.t {
                        if !reps.contains(&p.0) {
                            live.syms.insert(p.0);
                        }
                    }
                }
                ec.insert(*c, n);
            }
        }
        self.econs = Rc::new(ec);
        if self.ord.iter().any(|c| !live.conts.contains(c)) {
            let m = Rc::make_mut(&mut self.ord);
            m.retain(|c| live.conts.contains(c));
        }
        // byte offsets keep the character positions they stand for
        let mut bsyms: Vec<Sym> = vec![];
        T.with(|t| {
            let t = t.borrow();
            if t.byte_tab.is_empty() {
                return;
            }
            for c in live.conts.iter() {
                let Some(v) = t.byte_tab.get(c) else { continue };
                for (i, y) in v.iter() {
                    if live.syms.contains(y) || self.cs.subst.contains_key(y) {
                        for p in &i.t {
                            live.syms.insert(p.0);
                        }
                    }
                }
                for (i, y) in v.iter() {
                    if i.t.iter().all(|p| live.syms.contains(&p.0)) {
                        bsyms.push(*y);
                    }
                }
            }
        });
        // reads whose content and index are still reachable
        let mut rd: BTreeSet<(CId, Lin)> = BTreeSet::new();
        let mut rsyms: HashSet<Sym> = bsyms.into_iter().collect();
        for (c, i) in self.reads.iter() {
            if !live.conts.contains(c) {
                continue;
            }
            let n = self.cs.norm(i);
            if !n.t.iter().all(|p| live.syms.contains(&p.0)) {
                continue;
            }
            if n != *i {
                // the same element under its normalised index
                let v1 = read_content(*c, i);
                let v2 = read_content(*c, &n);
                let mut eqs = vec![];
                pair_lins(&v1, &v2, &mut |a, b| eqs.push(Con::eq2(a, b)));
                for e in eqs {
                    self.cs.add(&e);
                }
            }
            rd.insert((*c, n));
        }
        for (c, i) in rd.iter() {
            let v = read_content(*c, i);
            walk(&v, &mut |it| {
                if let Item::Lin(l) = it {
                    for p in &l.t {
                        rsyms.insert(p.0);
                    }
                }
            });
        }
        self.reads = Rc::new(rd);
        for m in eq_memo_of(&|y| live.syms.contains(&y)) {
            let (n1, n2) = (self.cs.norm(&m.n.0), self.cs.norm(&m.n.1));
            if n1.is_const() == Some(0) && n2.is_const() == Some(0) {
                self.cs.add(&Con::eq(Lin::s(m.y).addk(-1)));
            } else if let Some(k) = n1.sub(&n2).is_const() {
                if k != 0 {
                    self.cs.add(&Con::eq(Lin::s(m.y)));
                }
            }
        }
        if self.cs.bot {
            return;
        }
        {
            let cs = &self.cs;
            let in_subst = |s: Sym| live.syms.contains(&s) || cs.subst.get(&s).map_or(false, |e| e.t.iter().all(|p| live.syms.contains(&p.0)));
            eq_memo_live(&|c| live.conts.contains(&c), &|y| live.syms.contains(&y) || cs.subst.contains_key(&y), &in_subst, &mut rsyms);
        }
        self.cs.project(&|s| live.syms.contains(&s) || rsyms.contains(&s));
    }
}
pub fn rep_syms(c: CId) -> HashSet<Sym> {
    let mut s = HashSet::new();
    if let Some(r) = T.with(|t| t.borrow().cont[c as usize].rep.clone()) {
        walk(&r, &mut |i| {
            if let Item::Lin(l) = i {
                for p in &l.t {
                    s.insert(p.0);
                }
            }
        });
    }
    s
}
fn norm_val(cs: &mut Cs, v: &V) -> V {
    match v {
        V::Undef | V::Top | V::Opq(_) => v.clone(),
        V::Pred(c) => {
            let c = cs.normc(c);
            if let Some(b) = c.triv() {
                return vbool(b);
            }
            if cs.entails(&c) {
                return vbool(true);
            }
            let nc = c.negate();
            if cs.entails(&nc) {
                return vbool(false);
            }
            let taint = lin_taint(&c.l);
            let s = fresh(Some(0), Some(1), taint, "b");
            cs.guards.push(Guard { g: Lin::s(s).addk(-1), c });
            cs.guards.push(Guard { g: Lin::s(s), c: nc });
            isym(s)
        }
        V::Int(l) => {
            if l.t.is_empty() {
                v.clone()
            } else {
                V::Int(cs.norm(l))
            }
        }
        V::Agg(a) => {
            if a.is_empty() {
                return v.clone();
            }
            V::Agg(Rc::new(a.iter().map(|x| norm_val(cs, x)).collect()))
        }
        V::Enum(d, p) => {
            let d = cs.norm(d);
            let k = d.is_const();
            V::Enum(
                d,
                Rc::new(
                    p.iter()
                        .enumerate()
                        .map(|(i, x)| match x {
                            Some(_) if k.map_or(false, |k| k != i as i128) => None,
                            Some(x) if x.is_empty() => Some(x.clone()),
                            Some(x) => Some(Rc::new(x.iter().map(|y| norm_val(cs, y)).collect())),
                            None => None,
                        })
                        .collect(),
                ),
            )
        }
        V::Ref(p) => V::Ref(map_ptr(p, &mut |l| cs.norm(l))),
        V::Seq(s) => {
            let mut out: Vec<Seg> = vec![];
            for x in s.iter() {
                match x {
                    Seg::El(v) => out.push(Seg::El(norm_val(cs, v))),
                    Seg::Sub(c, a, b) => {
                        let (a, b) = (cs.norm(a), cs.norm(b));
                        if a == b {
                            continue;
                        }
                        if let Some(Seg::Sub(c1, _, b1)) = out.last_mut() {
                            if c1 == c && *b1 == a {
                                *b1 = b;
                                continue;
                            }
                        }
                        out.push(Seg::Sub(*c, a, b))
                    }
                }
            }
            V::Seq(Rc::new(out))
        }
    }
}

// ---------------------------------------------------------------- shape keys
/// level 0: all constants; 1: enum variants and booleans; 2: pointer shape only
pub struct Keyer {
    pub h: std::collections::hash_map::DefaultHasher,
    pub level: u8,
    /// the layout of sequences distinguishes
    pub layout: bool,
    hmap: HashMap<HId, u32>,
    pending: Vec<HId>,
}
impl Keyer {
    fn lin(&mut self, l: &Lin, disc: bool) {
        let lim = match self.level {
            0 => true,
            1 => disc,
            _ => false,
        };
        if lim {
            match l.is_const() {
                Some(k) => {
                    1u8.hash(&mut self.h);
                    k.hash(&mut self.h)
                }
                None => 2u8.hash(&mut self.h),
            }
        }
    }
    fn v(&mut self, v: &V) {
        match v {
            V::Undef => 0u8.hash(&mut self.h),
            V::Top => 1u8.hash(&mut self.h),
            V::Int(l) => {
                2u8.hash(&mut self.h);
                let d = l.is_const().map_or(false, |k| k == 0 || k == 1);
                self.lin(l, d)
            }
            V::Pred(_) => {
                2u8.hash(&mut self.h);
            }
            V::Agg(a) => {
                3u8.hash(&mut self.h);
                a.len().hash(&mut self.h);
                for x in a.iter() {
                    self.v(x)
                }
            }
            V::Enum(d, p) => {
                4u8.hash(&mut self.h);
                self.lin(d, true);
                if self.level < 2 {
                    for (i, x) in p.iter().enumerate() {
                        if let Some(k) = d.is_const() {
                            if k != i as i128 {
                                continue;
                            }
                        }
                        if let Some(x) = x {
                            if d.is_const().is_some() {
                                for y in x.iter() {
                                    self.v(y)
                                }
                            } else {
                                // pointers inside payloads matter
                                for y in x.iter() {
                                    self.ptrs(y)
                                }
                            }
                        }
                    }
                } else {
                    // pointers inside payloads are compared by the join itself
                }
            }
            V::Ref(p) => {
                5u8.hash(&mut self.h);
                self.ptr(p)
            }
            V::Seq(s) => {
                6u8.hash(&mut self.h);
                if self.layout {
                    s.len().hash(&mut self.h);
                    for x in s.iter() {
                        match x {
                            Seg::Sub(c, ..) => (1u8, *c).hash(&mut self.h),
                            Seg::El(_) => 2u8.hash(&mut self.h),
                        }
                    }
                }
            }
            V::Opq(_) => 7u8.hash(&mut self.h),
        }
    }
    fn ptrs(&mut self, v: &V) {
        match v {
            V::Ref(p) => self.ptr(p),
            V::Agg(a) => a.iter().for_each(|x| self.ptrs(x)),
            _ => {}
        }
    }
    fn ptr(&mut self, p: &Ptr) {
        match p.base {
            Base::Local(a, b) => {
                0u8.hash(&mut self.h);
                a.hash(&mut self.h);
                b.hash(&mut self.h)
            }
            Base::Heap(h) => {
                1u8.hash(&mut self.h);
                let n = self.hmap.len() as u32;
                let k = *self.hmap.entry(h).or_insert_with(|| {
                    self.pending.push(h);
                    n
                });
                k.hash(&mut self.h)
            }
        }
        for j in p.path.iter() {
            match j {
                Pj::F(i) => i.hash(&mut self.h),
                Pj::Dc(i) => (1000 + i).hash(&mut self.h),
                Pj::At(_) => 9999u32.hash(&mut self.h),
            }
        }
        p.meta.is_some().hash(&mut self.h);
    }
}
thread_local! {
    /// places whose (constant) value always keeps states apart
    pub static PARTITION: std::cell::RefCell<Vec<Ptr>> = std::cell::RefCell::new(vec![]);
}
impl State {
    fn heap_get(&self, b: Base) -> V {
        match b {
            Base::Heap(h) => self.heap.get(&h).cloned().unwrap_or_else(|| heap_init(h)),
            Base::Local(d, l) => self.frames.get(d as usize).and_then(|f| f.get(l as usize)).cloned().unwrap_or(V::Undef),
        }
    }
    /// shape key of a (garbage collected) state
    pub fn key(&self, level: u8) -> u64 {
        self.key_l(level, false)
    }
    pub fn key_l(&self, level: u8, layout: bool) -> u64 {
        let mut k = Keyer { h: std::collections::hash_map::DefaultHasher::new(), level, layout, hmap: HashMap::new(), pending: vec![] };
        for f in self.frames.iter() {
            for v in f.iter() {
                k.v(v);
            }
        }
        for v in self.ghost.iter() {
            // ghost registers always distinguish
            let l = k.level;
            k.level = if l >= 2 { 1 } else { 0 };
            k.v(v);
            k.level = l;
        }
        PARTITION.with(|ps| {
            for p in ps.borrow().iter() {
                let mut v = self.heap_get(p.base);
                for j in p.path.iter() {
                    v = proj(&v, j);
                }
                let l = match &v {
                    V::Int(l) => Some(l),
                    V::Enum(d, _) => Some(d),
                    _ => None,
                };
                let c = l.and_then(|l| self.cs.norm(l).is_const());
                c.hash(&mut k.h);
            }
        });
        let mut done: HashSet<HId> = HashSet::new();
        while let Some(h) = k.pending.pop() {
            if !done.insert(h) {
                continue;
            }
            let v = self.heap.get(&h).cloned().unwrap_or_else(|| heap_init(h));
            k.v(&v);
        }
        self.taint.hash(&mut k.h);
        k.h.finish()
    }
}

// ---------------------------------------------------------------- join
pub struct Joiner<'a> {
    a: &'a State,
    b: &'a State,
    pairs: Vec<(Lin, Lin, Lin)>,
    memo: HashMap<(Lin, Lin), Lin>,
    ident: HashSet<Sym>,
    cpairs: Vec<(Vec<Seg>, Vec<Seg>, CId)>,
    opairs: HashMap<(OpqId, OpqId), V>,
    hpairs: HashMap<HId, HId>,
    hq: Vec<(HId, HId)>,
    pub fail: bool,
    lost: bool,
    lens: Vec<Lin>,
    runs: Vec<Lin>,
    /// total lengths of sequences made of several runs
    totals: Vec<Lin>,
    derived: Vec<Lin>,
    widen: bool,
}
impl<'a> Joiner<'a> {
    fn lin(&mut self, x: &Lin, y: &Lin) -> Lin {
        if x == y {
            for p in &x.t {
                self.ident.insert(p.0);
            }
            return x.clone();
        }
        if let Some(r) = self.memo.get(&(x.clone(), y.clone())) {
            return r.clone();
        }
        // the same expression, known under a simpler form on one side
        for (l, m, cs) in [(x, y, &self.a.cs), (y, x, &self.b.cs)] {
            if !m.t.is_empty() && cs.norm(m) == *l {
                for p in &m.t {
                    self.ident.insert(p.0);
                }
                let r = m.clone();
                self.pairs.push((x.clone(), y.clone(), r.clone()));
                self.memo.insert((x.clone(), y.clone()), r.clone());
                return r;
            }
        }
        let mut res = None;
        let mut derived = None;
        for (a, b, r) in &self.pairs {
            let da = x.sub(a);
            let db = y.sub(b);
            if da == db {
                res = Some(r.add(&da));
                derived = res.clone();
                break;
            }
            let sa = x.add(a);
            let sb = y.add(b);
            if sa == sb {
                res = Some(sa.sub(r));
                derived = res.clone();
                break;
            }
        }
        if let Some(d) = derived {
            if self.derived.len() < 40 {
                self.derived.push(d);
            }
        }
        let res = res.unwrap_or_else(|| {
            let (la, ha) = self.a.cs.interval(x);
            let (lb, hb) = self.b.cs.interval(y);
            let lo = match (la, lb) {
                (Some(p), Some(q)) if p >= 0 && q >= 0 => Some(0),
                _ => None,
            };
            let konst = x.is_const().is_some() && y.is_const().is_some();
            let hi = match (ha, hb) {
                (Some(p), Some(q)) if p <= 1 && q <= 1 && lo.is_some() => Some(1),
                (Some(p), Some(q)) if p <= 255 && q <= 255 && lo.is_some() && !konst => Some(255),
                (Some(p), Some(q)) if p <= 0x10FFFF && q <= 0x10FFFF && lo.is_some() && !konst => Some(0x10FFFF),
                _ => None,
            };
            let name = x.as_sym_plus().map(|p| sym_name(p.0)).or(y.as_sym_plus().map(|p| sym_name(p.0))).unwrap_or_else(|| "j".into());
            let s = fresh(lo, hi, lin_taint(x) || lin_taint(y), &name);
            if std::env::var("LL_TRACE").map_or(false, |v| v == "8") {
                eprintln!("JOINED {:?} | {:?} -> #{}", x, y, s);
            }
            let r = Lin::s(s);
            self.pairs.push((x.clone(), y.clone(), r.clone()));
            r
        });
        self.memo.insert((x.clone(), y.clone()), res.clone());
        res
    }
    fn force_pair(&mut self, x: &Lin, y: &Lin, t: &Lin) {
        if x == t && y == t {
            return;
        }
        self.pairs.push((x.clone(), y.clone(), t.clone()));
        self.memo.entry((x.clone(), y.clone())).or_insert_with(|| t.clone());
    }
    fn v(&mut self, x: &V, y: &V) -> V {
        match (x, y) {
            (V::Undef, _) | (_, V::Undef) => V::Undef,
            (V::Top, V::Top) => V::Top,
            (V::Top, _) | (_, V::Top) => V::Top,
            (V::Int(p), V::Int(q)) => {
                if p != q {
                    if let (Some((c1, i1)), Some((c2, i2))) = (origin(x), origin(y)) {
                        if c1 == c2 {
                            let i1 = self.a.cs.norm(&i1);
                            let i2 = self.b.cs.norm(&i2);
                            let k = self.lin(&i1, &i2);
                            let r = read_content(c1, &k);
                            if let V::Int(t) = &r {
                                let t = t.clone();
                                self.force_pair(p, q, &t);
                            }
                            return r;
                        }
                    }
                }
                V::Int(self.lin(p, q))
            }
            (V::Agg(p), V::Agg(q)) => {
                if p.len() != q.len() {
                    return V::Top;
                }
                if p.is_empty() {
                    return x.clone();
                }
                V::Agg(Rc::new(p.iter().zip(q.iter()).map(|(a, b)| self.v(a, b)).collect()))
            }
            (V::Enum(d, p), V::Enum(e, q)) => {
                let r = self.lin(d, e);
                let n = p.len().max(q.len());
                let mut out = vec![None; n];
                for i in 0..n {
                    let pa = p.get(i).and_then(|o| o.clone()).filter(|_| d.is_const().map_or(true, |k| k == i as i128));
                    let pb = q.get(i).and_then(|o| o.clone()).filter(|_| e.is_const().map_or(true, |k| k == i as i128));
                    out[i] = match (pa, pb) {
                        (Some(a), Some(b)) => {
                            if a.len() == b.len() {
                                Some(Rc::new(a.iter().zip(b.iter()).map(|(s, t)| self.v(s, t)).collect()))
                            } else {
                                Some(Rc::new(vec![V::Top; a.len().max(b.len())]))
                            }
                        }
                        (Some(a), None) => Some(Rc::new(a.iter().map(|s| self.only(s, true)).collect())),
                        (None, Some(b)) => Some(Rc::new(b.iter().map(|s| self.only(s, false)).collect())),
                        _ => None,
                    };
                }
                V::Enum(r, Rc::new(out))
            }
            (V::Ref(p), V::Ref(q)) => match self.ptr(p, q) {
                Some(r) => V::Ref(r),
                None => {
                    self.fail = true;
                    V::Top
                }
            },
            (V::Opq(o), V::Opq(r)) if o == r => x.clone(),
            (V::Opq(o), V::Opq(r)) => {
                if opq_ty(*o) == opq_ty(*r) {
                    // contents behind lazily expanded pointers would be lost
                    if let Some(v) = self.opairs.get(&(*o, *r)) {
                        return v.clone();
                    }
                    let taint = opq_taint(*o) || opq_taint(*r);
                    let v = new_opq(opq_ty(*o), "join", taint);
                    self.opairs.insert((*o, *r), v.clone());
                    v
                } else {
                    V::Top
                }
            }
            (V::Opq(o), V::Ref(_)) => match expand(*o) {
                Some(e) => self.v(&e, y),
                None => V::Top,
            },
            (V::Ref(_), V::Opq(o)) => match expand(*o) {
                Some(e) => self.v(x, &e),
                None => V::Top,
            },
            (V::Seq(p), V::Seq(q)) => {
                let (p, q) = (p.clone(), q.clone());
                let r = self.segs(&p, &q);
                if r.len() > 1 {
                    self.totals.push(seq_len(&r));
                }
                seq(r)
            }
            _ => V::Top,
        }
    }
    /// a value present on one side only (behind an enum variant the other side does not have)
    fn only(&mut self, x: &V, left: bool) -> V {
        // heap objects referenced only from one side are carried over
        let mut hs = vec![];
        walk(x, &mut |i| match i {
            Item::Ptr(p) => {
                if let Base::Heap(h) = p.base {
                    hs.push(h)
                }
            }
            _ => {}
        });
        for h in hs {
            self.hq.push(if left { (h, u32::MAX) } else { (u32::MAX, h) });
        }
        x.clone()
    }
    fn ptr(&mut self, p: &Ptr, q: &Ptr) -> Option<Ptr> {
        let base = match (p.base, q.base) {
            (Base::Local(a, b), Base::Local(c, d)) if a == c && b == d => p.base,
            (Base::Heap(a), Base::Heap(b)) => {
                match self.hpairs.get(&a) {
                    Some(x) if *x == b => {}
                    Some(_) => return None,
                    None => {
                        if self.hpairs.values().any(|v| *v == b) {
                            return None;
                        }
                        self.hpairs.insert(a, b);
                        self.hq.push((a, b));
                    }
                }
                p.base
            }
            _ => return None,
        };
        if p.path.len() != q.path.len() || p.meta.is_some() != q.meta.is_some() {
            return None;
        }
        let mut path = vec![];
        for (x, y) in p.path.iter().zip(q.path.iter()) {
            path.push(match (x, y) {
                (Pj::F(a), Pj::F(b)) if a == b => x.clone(),
                (Pj::Dc(a), Pj::Dc(b)) if a == b => x.clone(),
                (Pj::At(a), Pj::At(b)) => Pj::At(self.lin(a, b)),
                _ => return None,
            });
        }
        let meta = match (&p.meta, &q.meta) {
            (Some((a, b)), Some((c, d))) => {
                let (lo, n) = (self.lin(a, c), self.lin(b, d));
                self.runs.push(n.clone());
                Some((lo, n))
            }
            _ => None,
        };
        Some(Ptr { base, path: Rc::new(path), meta })
    }
    /// content `c` of element `x` and content `d` of element `y` of the same sequence, at the same place in the element
    fn nested(&mut self, seq: CId, x: &Lin, y: &Lin, c: CId, d: CId) -> Option<CId> {
        let (ra, rb) = (read_content(seq, x), read_content(seq, y));
        let conts = |v: &V| {
            let mut r = vec![];
            walk(v, &mut |i| {
                if let Item::Cont(n) = i {
                    r.push(n);
                }
            });
            r
        };
        let (ca, cb) = (conts(&ra), conts(&rb));
        let pos = ca.iter().position(|n| *n == c)?;
        if ca.len() != cb.len() || cb[pos] != d {
            return None;
        }
        let (nx, ny) = (self.a.cs.norm(x), self.b.cs.norm(y));
        let k = self.lin(&nx, &ny);
        let rj = read_content(seq, &k);
        let cj = conts(&rj);
        if cj.len() != ca.len() {
            return None;
        }
        let mut l1 = vec![];
        pair_lins(&ra, &rj, &mut |p, q| l1.push((p.clone(), q.clone())));
        let mut l2 = vec![];
        pair_lins(&rb, &rj, &mut |p, _| l2.push(p.clone()));
        if l1.len() != l2.len() {
            return None;
        }
        for ((p, t), q) in l1.into_iter().zip(l2) {
            let p = self.a.cs.norm(&p);
            let q = self.b.cs.norm(&q);
            if t.as_sym_plus().map_or(false, |s| s.1 == 0) && !t.t.iter().any(|s| self.ident.contains(&s.0)) {
                self.force_pair(&p, &q, &t);
            }
        }
        Some(cj[pos])
    }
    fn segs(&mut self, p: &[Seg], q: &[Seg]) -> Vec<Seg> {
        if p == q {
            for x in p {
                if let Seg::Sub(_, a, b) = x {
                    for s in a.t.iter().chain(b.t.iter()) {
                        self.ident.insert(s.0);
                    }
                    self.lens.push(b.clone());
                }
                if let Seg::El(v) = x {
                    walk(v, &mut |i| {
                        if let Item::Lin(l) = i {
                            for s in &l.t {
                                self.ident.insert(s.0);
                            }
                        }
                    });
                }
            }
            return p.to_vec();
        }
        // parts of elements of one sequence: part of the element at the joined position
        if p.len() == q.len() {
            let mut q2 = q.to_vec();
            let mut p2 = p.to_vec();
            let mut hit = false;
            for i in 0..p.len() {
                if let (Seg::Sub(c, ..), Seg::Sub(d, ..)) = (&p[i], &q[i]) {
                    if c == d {
                        continue;
                    }
                    let (c, d) = (*c, *d);
                    if let (Some((cc, x)), Some((dd, y))) = (norigin(c), norigin(d)) {
                        if cc == dd {
                            if let Some(m) = self.nested(cc, &x, &y, c, d) {
                                hit = true;
                                if let (Seg::Sub(c, ..), Seg::Sub(d, ..)) = (&mut p2[i], &mut q2[i]) {
                                    *c = m;
                                    *d = m;
                                }
                            }
                        }
                    }
                }
            }
            if hit {
                return self.segs(&p2, &q2);
            }
        }
        // same skeleton
        let same = p.len() == q.len()
            && p.iter().zip(q.iter()).all(|(x, y)| match (x, y) {
                (Seg::Sub(c, ..), Seg::Sub(d, ..)) => c == d,
                (Seg::El(_), Seg::El(_)) => true,
                _ => false,
            });
        if same {
            let r: Vec<Seg> = p
                .iter()
                .zip(q.iter())
                .map(|(x, y)| match (x, y) {
                    (Seg::Sub(c, a, b), Seg::Sub(_, e, f)) => {
                        let lo = self.lin(a, e);
                        let hi = self.lin(b, f);
                        self.runs.push(hi.sub(&lo));
                        self.lens.push(hi.clone());
                        Seg::Sub(*c, lo, hi)
                    }
                    (Seg::El(a), Seg::El(b)) => Seg::El(self.v(a, b)),
                    _ => unreachable!(),
                })
                .collect();
            return r;
        }
        let empty_at = |left_missing: bool, lo: &Lin, hi: &Lin| -> Lin {
            // where an empty run should sit, so that its ends keep their meaning
            let mut best: Option<Lin> = None;
            for h in [hi, lo] {
                if h.t.iter().all(|p| self.ident.contains(&p.0)) {
                    return h.clone();
                }
                for ((x, y), _) in self.memo.iter() {
                    let (own, oth) = if left_missing { (y, x) } else { (x, y) };
                    if own == h && best.as_ref().map_or(true, |b| oth < b) {
                        best = Some(oth.clone());
                    }
                }
                if let Some(b) = best {
                    return b;
                }
                let cs = if left_missing { &self.a.cs } else { &self.b.cs };
                if h.t.iter().any(|p| cs.subst.contains_key(&p.0)) {
                    return cs.norm(h);
                }
            }
            lo.clone()
        };
        if let Some(al) = align(p, q, &empty_at).filter(|al| al.len() <= p.len() || !self.widen && al.len() <= 4) {
            let mut out = vec![];
            for (x, y) in al {
                match (x, y) {
                    (Seg::Sub(c, a, b), Seg::Sub(_, e, f)) => {
                        let lo = self.lin(&a, &e);
                        let hi = self.lin(&b, &f);
                        self.runs.push(hi.sub(&lo));
                        self.lens.push(hi.clone());
                        out.push(Seg::Sub(c, lo, hi));
                    }
                    (Seg::El(a), Seg::El(b)) => out.push(Seg::El(self.v(&a, &b))),
                    _ => unreachable!(),
                }
            }
            return out;
        }
        // forget the layout: one fresh run
        let len = {
            let (la, lb) = (self.a.cs.norm(&seq_len(p)), self.b.cs.norm(&seq_len(q)));
            self.lin(&la, &lb)
        };
        self.lens.push(len.clone());
        for (x, y, c) in &self.cpairs {
            if x == p && y == q {
                return vec![Seg::Sub(*c, Lin::k(0), len)];
            }
        }
        let mut ty = None;
        let mut taint = false;
        let mut name = String::new();
        for x in p.iter().chain(q.iter()) {
            match x {
                Seg::Sub(c, ..) => {
                    if ty.is_none() {
                        ty = cont_ty(*c);
                        name = cont_name(*c);
                    }
                    taint |= cont_taint(*c);
                }
                Seg::El(v) => taint |= has_taint(v),
            }
        }
        if ty.is_none() {
            ty = p.iter().chain(q.iter()).find_map(|x| if let Seg::El(v) = x { guess_ty(v) } else { None });
        }
        let c = new_content(ty, &format!("{}'", name.trim_end_matches('\'')), taint);
        self.cpairs.push((p.to_vec(), q.to_vec(), c));
        vec![Seg::Sub(c, Lin::k(0), len)]
    }
}
thread_local! {
    /// element types seen so far, by the shape of their values (None: more than one)
    pub static ELEM_TYPES: std::cell::RefCell<HashMap<String, Option<rustc_public::ty::Ty>>> = Default::default();
}
/// the type of an element value, when it is a plain integer or tuple of integers
fn guess_ty(v: &V) -> Option<rustc_public::ty::Ty> {
    use rustc_public::ty::*;
    match v {
        V::Int(l) => {
            // a constant or symbol: characters and sizes cannot be told apart; use the widest
            let _ = l;
            Some(Ty::usize_ty())
        }
        V::Agg(_) | V::Seq(_) | V::Enum(..) if ELEM_TYPES.with(|t| matches!(t.borrow().get(&shape_of(v)), Some(Some(_)))) => ELEM_TYPES.with(|t| t.borrow().get(&shape_of(v)).cloned().flatten()),
        V::Agg(a) if !a.is_empty() && a.iter().all(|x| matches!(x, V::Int(_))) => Some(Ty::new_tuple(&vec![Ty::usize_ty(); a.len()])),
        _ => None,
    }
}
pub fn shape_of(v: &V) -> String {
    match v {
        V::Int(_) | V::Pred(_) => "i".into(),
        V::Agg(a) => format!("({})", a.iter().map(shape_of).collect::<Vec<_>>().join("")),
        V::Seq(_) => "s".into(),
        V::Enum(..) => "e".into(),
        V::Ref(_) => "r".into(),
        V::Opq(_) => "o".into(),
        _ => "?".into(),
    }
}
pub fn note_elem(v: &V, ty: rustc_public::ty::Ty) {
    if matches!(v, V::Agg(_) | V::Seq(_) | V::Enum(..)) {
        ELEM_TYPES.with(|t| {
            let mut t = t.borrow_mut();
            let e = t.entry(shape_of(v)).or_insert(Some(ty));
            if *e != Some(ty) {
                *e = None;
            }
        });
    }
}
/// align two segment lists, matching a run missing on one side with an empty run
fn align(p: &[Seg], q: &[Seg], empty_at: &dyn Fn(bool, &Lin, &Lin) -> Lin) -> Option<Vec<(Seg, Seg)>> {
    let els = |s: &[Seg]| s.iter().filter(|g| matches!(g, Seg::El(_))).count();
    if els(p) != els(q) || p.len() > 14 || q.len() > 14 {
        return None;
    }
    // cheapest alignment; a run may be empty on the other side
    let (n, m) = (p.len(), q.len());
    const INF: u32 = 1 << 20;
    let mut d = vec![vec![(INF, 0u8); m + 1]; n + 1];
    d[0][0] = (0, 0);
    for i in 0..=n {
        for j in 0..=m {
            let c = d[i][j].0;
            if c >= INF {
                continue;
            }
            let mut go = |i2: usize, j2: usize, k: u32, w: u8| {
                if c + k < d[i2][j2].0 {
                    d[i2][j2] = (c + k, w);
                }
            };
            if i < n && j < m {
                match (&p[i], &q[j]) {
                    (Seg::Sub(x, a, b), Seg::Sub(y, c, e)) if x == y => go(i + 1, j + 1, (a != c) as u32 + (b != e) as u32, 1),
                    (Seg::El(x), Seg::El(y)) => go(i + 1, j + 1, if x == y { 0 } else { 4 }, 1),
                    _ => {}
                }
            }
            if i < n && matches!(p[i], Seg::Sub(..)) {
                go(i + 1, j, 8, 2);
            }
            if j < m && matches!(q[j], Seg::Sub(..)) {
                go(i, j + 1, 8, 3);
            }
        }
    }
    if d[n][m].0 >= INF {
        return None;
    }
    let mut out: Vec<(Seg, Seg, u8)> = vec![];
    let (mut i, mut j) = (n, m);
    while i > 0 || j > 0 {
        match d[i][j].1 {
            1 => {
                i -= 1;
                j -= 1;
                out.push((p[i].clone(), q[j].clone(), 1));
            }
            2 => {
                i -= 1;
                let Seg::Sub(c, a, b) = &p[i] else { return None };
                let e = empty_at(false, a, b);
                out.push((p[i].clone(), Seg::Sub(*c, e.clone(), e), 2));
            }
            3 => {
                j -= 1;
                let Seg::Sub(c, a, b) = &q[j] else { return None };
                let e = empty_at(true, a, b);
                out.push((Seg::Sub(*c, e.clone(), e), q[j].clone(), 3));
            }
            _ => return None,
        }
    }
    out.reverse();
    // two different runs side by side are better described as one unknown run
    if out.windows(2).any(|w| w[0].2 + w[1].2 == 5) {
        return None;
    }
    Some(out.into_iter().map(|x| (x.0, x.1)).collect())
}
fn renames(pairs: &[(Lin, Lin, Lin)], ident: &HashSet<Sym>, left: bool) -> HashMap<Sym, Lin> {
    let mut m = HashMap::new();
    for (a, b, r) in pairs {
        let s = if left { a } else { b };
        if let Some((x, k)) = s.as_sym_plus() {
            // x + k ↦ r   =>  x = r - k
            m.entry(x).or_insert_with(|| r.addk(-k));
        }
    }
    // a sum that became one value: solve it for a symbol nothing else speaks for
    for (a, b, r) in pairs {
        let s = if left { a } else { b };
        if s.t.len() < 2 || s.t.len() > 3 {
            continue;
        }
        if let Some(&(x, k)) = s.t.iter().find(|p| (p.1 == 1 || p.1 == -1) && !m.contains_key(&p.0) && !ident.contains(&p.0)) {
            let mut rest = s.sub(&Lin::s(x).mulk(k));
            rest = rest.subst_map(&|y| m.get(&y).cloned());
            if rest.coef(x) == 0 {
                m.insert(x, r.sub(&rest).mulk(k));
            }
        }
    }
    m
}
/// a joined-vocabulary constraint evaluated on one side
fn eval_on(pairs: &[(Lin, Lin, Lin)], left: bool) -> HashMap<Sym, Lin> {
    let mut m = HashMap::new();
    for (a, b, r) in pairs {
        if let Some((x, 0)) = r.as_sym_plus() {
            m.insert(x, if left { a.clone() } else { b.clone() });
        }
    }
    m
}

pub struct JoinRes {
    pub st: State,
    pub stable: bool,
}

/// `widen`: keep only constraints that were already known on the left
pub fn join(a: &State, b: &State, widen: bool, templates: bool) -> Option<JoinRes> {
    if a.frames.len() != b.frames.len() || a.ghost.len() != b.ghost.len() {
        return None;
    }
    let mut j = Joiner {
        a,
        b,
        pairs: vec![],
        memo: HashMap::new(),
        ident: HashSet::new(),
        cpairs: vec![],
        opairs: HashMap::new(),
        hpairs: HashMap::new(),
        hq: vec![],
        fail: false,
        lost: false,
        lens: vec![],
        runs: vec![],
        totals: vec![],
        derived: vec![],
        widen,
    };
    let mut frames = vec![];
    for (f, g) in a.frames.iter().zip(b.frames.iter()) {
        if Rc::ptr_eq(f, g) {
            // still registers identities and heap links
        }
        if f.len() != g.len() {
            return None;
        }
        let mut o = Vec::with_capacity(f.len());
        for (x, y) in f.iter().zip(g.iter()) {
            o.push(j.v(x, y));
            if j.fail {
                return None;
            }
        }
        frames.push(Rc::new(o));
    }
    let mut ghost = vec![];
    for (x, y) in a.ghost.iter().zip(b.ghost.iter()) {
        ghost.push(j.v(x, y));
    }
    let mut heap: BTreeMap<HId, V> = BTreeMap::new();
    while let Some((x, y)) = j.hq.pop() {
        if x == u32::MAX {
            let v = b.heap.get(&y).cloned().unwrap_or_else(|| heap_init(y));
            if heap.contains_key(&y) {
                continue;
            }
            // a name clash with a different object on the left cannot be expressed
            if j.hpairs.contains_key(&y) && j.hpairs[&y] != y {
                return None;
            }
            let v = j.only(&v, false);
            heap.insert(y, v);
            continue;
        }
        if y == u32::MAX {
            if heap.contains_key(&x) {
                continue;
            }
            let v = a.heap.get(&x).cloned().unwrap_or_else(|| heap_init(x));
            let v = j.only(&v, true);
            heap.insert(x, v);
            continue;
        }
        let va = a.heap.get(&x).cloned().unwrap_or_else(|| heap_init(x));
        let vb = b.heap.get(&y).cloned().unwrap_or_else(|| heap_init(y));
        let r = j.v(&va, &vb);
        if j.fail {
            return None;
        }
        heap.insert(x, r);
    }
    if j.fail {
        return None;
    }
    // live reads seen under the same (joined) index on both sides
    let mut reads: BTreeSet<(CId, Lin)> = BTreeSet::new();
    for (c, i) in a.reads.iter() {
        if b.reads.contains(&(*c, i.clone())) && i.t.iter().all(|p| j.ident.contains(&p.0)) {
            reads.insert((*c, i.clone()));
        }
    }
    {
        let ps: Vec<(Lin, Lin, Lin)> = j.memo.iter().map(|((x, y), z)| (x.clone(), y.clone(), z.clone())).collect();
        for (x, y, z) in ps {
            let cs_: Vec<CId> = a.reads.iter().filter(|(_, i)| *i == x).map(|p| p.0).collect();
            for c in cs_ {
                if b.reads.contains(&(c, y.clone())) {
                    let (ra, rb) = (read_content(c, &x), read_content(c, &y));
                    let rj = read_content(c, &z);
                    let mut l1 = vec![];
                    pair_lins(&ra, &rj, &mut |p, q| l1.push((p.clone(), q.clone())));
                    let mut l2 = vec![];
                    pair_lins(&rb, &rj, &mut |p, _| l2.push(p.clone()));
                    if l1.len() == l2.len() {
                        for ((p, t), q) in l1.into_iter().zip(l2) {
                            let p = a.cs.norm(&p);
                            let q = b.cs.norm(&q);
                            if t.as_sym_plus().map_or(false, |s| s.1 == 0) {
                                j.force_pair(&p, &q, &t);
                            }
                        }
                        reads.insert((c, z.clone()));
                    }
                }
            }
        }
    }
    let ra = renames(&j.pairs, &j.ident, true);
    let rb = renames(&j.pairs, &j.ident, false);
    let ea = eval_on(&j.pairs, true);
    let eb = eval_on(&j.pairs, false);
    // stability bookkeeping
    {
        let mut seen: HashSet<Sym> = HashSet::new();
        for (x, _, r) in &j.pairs {
            match x.as_sym_plus() {
                Some((s, _)) => {
                    if !seen.insert(s) || j.ident.contains(&s) {
                        j.lost = true;
                    }
                    // a bound that belongs to the name itself
                    let (l1, h1) = sym_bounds(s);
                    let (l2, h2) = sym_bounds(r.as_sym_plus().map_or(s, |p| p.0));
                    if (l1.is_some() && l2.is_none()) || (h1.is_some() && h2.is_none()) || (h1.is_some() && h1 < h2) {
                        j.lost = true;
                    }
                }
                None => {
                    j.lost = true;
                }
            }
        }
    }
    let on = |m: &HashMap<Sym, Lin>, c: &Con| c.map(&|s| m.get(&s).cloned());
    // candidate constraints
    let mut cand: Vec<(Con, bool)> = vec![]; // (constraint, came from the left under full renaming)
    let addc = |v: &mut Vec<(Con, bool)>, c: Con, l: bool| {
        if c.triv().is_none() {
            v.push((c, l));
        }
    };
    for c in a.cs.cons.iter() {
        addc(&mut cand, on(&ra, c), true);
        if c.l.t.iter().any(|p| ra.contains_key(&p.0)) && c.l.t.iter().all(|p| j.ident.contains(&p.0)) {
            addc(&mut cand, c.clone(), false);
        }
    }
    for (s, e) in a.cs.subst.iter() {
        let c = Con::eq(Lin::s(*s).sub(e));
        addc(&mut cand, on(&ra, &c), false);
    }
    if !widen {
        for c in b.cs.cons.iter() {
            addc(&mut cand, on(&rb, c), false);
            if c.l.t.iter().any(|p| rb.contains_key(&p.0)) && c.l.t.iter().all(|p| j.ident.contains(&p.0)) {
                addc(&mut cand, c.clone(), false);
            }
        }
        for (s, e) in b.cs.subst.iter() {
            let c = Con::eq(Lin::s(*s).sub(e));
            addc(&mut cand, on(&rb, &c), false);
        }
        for (x, y, r) in &j.pairs {
            let (la, ha) = a.cs.interval(x);
            let (lb, hb) = b.cs.interval(y);
            if let (Some(p), Some(q)) = (la, lb) {
                addc(&mut cand, Con::ge(r.addk(-p.min(q))), false);
            }
            if let (Some(p), Some(q)) = (ha, hb) {
                addc(&mut cand, Con::ge(r.neg().addk(p.max(q))), false);
            }
        }
    }
    // the sign of a joined value survives, also widening
    for r in &j.derived {
        addc(&mut cand, Con::ge(r.clone()), false);
    }
    for (x, y, r) in &j.pairs {
        if x.is_const().is_some_and(|k| k < 0) || y.is_const().is_some_and(|k| k < 0) {
            continue;
        }
        addc(&mut cand, Con::ge(r.clone()), false);
        addc(&mut cand, Con::ge(r.addk(-1)), false);
    }
    // two joined values that are a constant apart on one side
    for (n, (x1, y1, r1)) in j.pairs.iter().take(14).enumerate() {
        for (x2, y2, r2) in j.pairs.iter().take(14).skip(n + 1) {
            let l = x1.sub(x2);
            let r = y1.sub(y2);
            for (d, other, on) in [(l.clone(), &r, true), (r.clone(), &l, !widen)] {
                // (what both sides have as a constant is found by the bounds)
                if !on || other == &d {
                    continue;
                }
                if let (Some(k), false) = (d.is_const(), x1.is_const().is_some() && y1.is_const().is_some() && x2.is_const().is_some()) {
                    let e = r1.sub(r2).addk(-k);
                    addc(&mut cand, Con::ge(e.clone()), false);
                    addc(&mut cand, Con::ge(e.neg()), false);
                }
            }
        }
    }
    // a joined value against what it was on one side
    if !widen {
        let sub = |m: &HashMap<Sym, Lin>, l: &Lin| l.subst_map(&|s| m.get(&s).cloned());
        for (x, y, r) in j.pairs.iter().take(16) {
            for e in [sub(&ra, x), sub(&rb, y), x.clone(), y.clone()] {
                if e.is_const().is_some() || e == *r || e.t.len() > 4 || e.t.iter().any(|p| !j.ident.contains(&p.0) && !ea.contains_key(&p.0)) {
                    continue;
                }
                addc(&mut cand, Con::ge(r.sub(&e)), false);
                addc(&mut cand, Con::ge(e.sub(r)), false);
                // without its constant part: `n - 1` on one side, at most `n` on the other
                if e.k != 0 && e.k.abs() <= 2 {
                    let e0 = e.addk(-e.k);
                    addc(&mut cand, Con::ge(if e.k < 0 { e0.sub(r) } else { r.sub(&e0) }), false);
                }
            }
        }
    }
    for l in &j.runs {
        if l.is_const().is_none() {
            addc(&mut cand, Con::ge(l.clone()), false);
        }
    }
    if !widen {
        let mut ts: Vec<Lin> = vec![];
        for l in &j.totals {
            if l.t.len() > 1 && !ts.contains(l) {
                ts.push(l.clone());
            }
        }
        ts.truncate(8);
        for l in &ts {
            for (_, _, r) in j.pairs.iter().take(24) {
                addc(&mut cand, Con::ge(l.sub(r)), false);
            }
        }
    }
    if templates {
        let mut ls: Vec<Lin> = vec![];
        for l in &j.lens {
            if l.is_const().is_none() && !ls.contains(l) {
                ls.push(l.clone());
            }
        }
        ls.truncate(12);
        let rs: Vec<Lin> = j.pairs.iter().map(|p| p.2.clone()).take(14).collect();
        for r in &rs {
            for l in ls.iter().chain(rs.iter()) {
                if r == l {
                    continue;
                }
                addc(&mut cand, Con::lt2(r, l), false);
                addc(&mut cand, Con::le2(r, l), false);
                addc(&mut cand, Con::ne(r.sub(l)), false);
            }
        }
    }
    let mut cs = Cs::default();
    let mut lost_a: Vec<Con> = vec![];
    let mut done: HashSet<Con> = HashSet::new();
    for (c, from_a) in &cand {
        if !done.insert(c.clone()) {
            continue;
        }
        let ca = on(&ea, c);
        let cb = on(&eb, c);
        if a.cs.entails(&ca) && b.cs.entails(&cb) {
            cs.add(c);
        } else if *from_a {
            lost_a.push(c.clone());
            j.lost = true;
        }
    }
    // a fact of one side that the other side misses by a small constant
    if !widen {
        let mut extra: Vec<Con> = vec![];
        for (c, _) in &cand {
            if c.r != Rel::Ge || cs.entails(c) {
                continue;
            }
            let (ca, cb) = (a.cs.norm(&on(&ea, c).l), b.cs.norm(&on(&eb, c).l));
            let k = match (ca.is_const(), cb.is_const()) {
                (Some(k), None) | (None, Some(k)) if k < 0 && k >= -4 => k,
                _ => continue,
            };
            extra.push(Con::ge(c.l.addk(-k)));
        }
        for c in extra {
            if c.triv().is_some() || !done.insert(c.clone()) {
                continue;
            }
            if a.cs.entails(&on(&ea, &c)) && b.cs.entails(&on(&eb, &c)) {
                cs.add(&c);
            }
        }
    }
    // a fact of one side that the other side misses by the distance of a counter
    if !widen {
        let mut extra: Vec<Con> = vec![];
        let cps: Vec<(i128, i128, Lin)> = j
            .pairs
            .iter()
            .filter_map(|(x, y, r)| Some((x.is_const()?, y.is_const()?, r.clone())))
            .filter(|p| (p.0 - p.1).abs() <= 4 && p.2.as_sym_plus().map_or(false, |s| s.1 == 0))
            .take(4)
            .collect();
        if !cps.is_empty() {
            for (c, _) in &cand {
                if c.r == Rel::Ne || c.l.t.len() < 2 && c.l.t.iter().all(|p| cps.iter().any(|q| q.2.coef(p.0) != 0)) || cs.entails(c) {
                    continue;
                }
                let mut ls = vec![c.l.clone()];
                if c.r == Rel::Eq {
                    ls.push(c.l.neg());
                }
                for l in ls {
                    let g = Con::ge(l.clone());
                    let ina = a.cs.entails(&on(&ea, &g));
                    let inb = b.cs.entails(&on(&eb, &g));
                    for (p, q, r) in &cps {
                        if l.t.iter().any(|t| r.coef(t.0) != 0) {
                            continue;
                        }
                        if ina && !inb {
                            let d = r.addk(-p);
                            extra.push(Con::ge(if q > p { l.add(&d) } else { l.sub(&d) }));
                        } else if inb && !ina {
                            let d = r.addk(-q);
                            extra.push(Con::ge(if p > q { l.add(&d) } else { l.sub(&d) }));
                        }
                    }
                }
                if extra.len() > 60 {
                    break;
                }
            }
            for c in extra {
                if c.triv().is_some() || !done.insert(c.clone()) {
                    continue;
                }
                if a.cs.entails(&on(&ea, &c)) && b.cs.entails(&on(&eb, &c)) {
                    cs.add(&c);
                }
            }
        }
    }
    // guards
    let g_on = |m: &HashMap<Sym, Lin>, g: &Guard| Guard { g: g.g.subst_map(&|s| m.get(&s).cloned()), c: on(m, &g.c) };
    let holds = |s: &State, g: &Guard| -> bool {
        let n = s.cs.norm(&g.g);
        if let Some(k) = n.is_const() {
            if k != 0 {
                return true;
            }
        } else if s.cs.entails(&Con::ne(n.clone())) {
            return true;
        }
        if s.cs.entails(&g.c) {
            return true;
        }
        let nc = s.cs.normc(&g.c);
        if s.cs.guards.iter().any(|h| (h.g == n || h.g == n.neg()) && h.c == nc) {
            return true;
        }
        // assume the guard and test
        let mut t = s.cs.clone();
        t.add(&Con::eq(n));
        t.bot || t.entails(&nc)
    };
    for g in a.cs.guards.iter() {
        let r = g_on(&ra, g);
        if holds(b, &g_on(&eb, &r)) && holds(a, &g_on(&ea, &r)) {
            if !cs.guards.contains(&r) {
                cs.guards.push(r);
            }
        } else {
            j.lost = true;
        }
    }
    if !widen {
        for g in b.cs.guards.iter() {
            let r = g_on(&rb, g);
            if cs.guards.contains(&r) {
                continue;
            }
            if holds(a, &g_on(&ea, &r)) && holds(b, &g_on(&eb, &r)) {
                cs.guards.push(r);
            }
        }
        // discriminating constants: remember what each side knew
        let mut nd = 0;
        let mut pairs = j.pairs.clone();
        // values kept under their own name on both sides, but known to be different constants
        for (s, e) in a.cs.subst.iter() {
            if ra.contains_key(s) || rb.contains_key(s) {
                continue;
            }
            if let (Some(p), Some(f)) = (e.is_const(), b.cs.subst.get(s)) {
                if let Some(q) = f.is_const() {
                    if p != q {
                        pairs.push((Lin::k(p), Lin::k(q), Lin::s(*s)));
                    }
                }
            }
        }
        for (x, y, r) in &pairs {
            let (Some(p), Some(q)) = (x.is_const(), y.is_const()) else { continue };
            if r.as_sym_plus().map_or(true, |s| s.1 != 0) {
                continue;
            }
            nd += 1;
            if nd > 6 {
                break;
            }
            let mut n = 0;
            for (c, f) in &cand {
                if cs.entails(c) {
                    continue;
                }
                n += 1;
                if n > 60 {
                    break;
                }
                let _ = f;
                if a.cs.entails(&on(&ea, c)) {
                    cs.guards.push(Guard { g: r.addk(-p), c: c.clone() });
                } else if b.cs.entails(&on(&eb, c)) {
                    cs.guards.push(Guard { g: r.addk(-q), c: c.clone() });
                }
            }
            for (x2, y2, r2) in &pairs {
                if r2 == r {
                    continue;
                }
                let idn = |l: &Lin| l.t.iter().all(|s| j.ident.contains(&s.0));
                if idn(x2) {
                    cs.guards.push(Guard { g: r.addk(-p), c: Con::eq(r2.sub(x2)) });
                }
                if idn(y2) {
                    cs.guards.push(Guard { g: r.addk(-q), c: Con::eq(r2.sub(y2)) });
                }
            }
        }
    }
    // a choice known on one side, open on the other: what held where it is known may hold there too under that choice
    if !widen {
        let mut nd = 0;
        for (x, y, r) in j.pairs.clone().iter() {
            if r.as_sym_plus().map_or(true, |s| s.1 != 0) {
                continue;
            }
            let (known, open, k_on, o_on, p, sym) = match (x.is_const(), y.is_const()) {
                (Some(p), None) => (a, b, &ea, &eb, p, y),
                (None, Some(q)) => (b, a, &eb, &ea, q, x),
                _ => continue,
            };
            let Some((sy, 0)) = sym.as_sym_plus() else { continue };
            if !open.cs.guards.iter().any(|g| g.g.coef(sy) != 0) {
                continue;
            }
            nd += 1;
            if nd > 4 {
                break;
            }
            let mut t = open.cs.clone();
            t.add(&Con::eq(sym.addk(-p)));
            let mut n = 0;
            for (c, _) in &cand {
                if cs.entails(c) || !known.cs.entails(&on(k_on, c)) {
                    continue;
                }
                n += 1;
                if n > 40 {
                    break;
                }
                let g = Guard { g: r.addk(-p), c: c.clone() };
                if (t.bot || t.entails(&on(o_on, c))) && !cs.guards.contains(&g) {
                    cs.guards.push(g);
                }
            }
        }
    }
    cs.fire_guards();
    if cs.guards.len() > 400 {
        cs.guards.truncate(400);
    }
    // element knowledge
    let mut econs: BTreeMap<CId, Vec<Con>> = BTreeMap::new();
    let mut ord: BTreeSet<CId> = BTreeSet::new();
    let mut live_c: HashSet<CId> = HashSet::new();
    {
        let mut vis = |v: &V| {
            walk(v, &mut |i| {
                if let Item::Cont(c) = i {
                    live_c.insert(c);
                }
            })
        };
        frames.iter().for_each(|f| f.iter().for_each(|v| vis(v)));
        heap.values().for_each(|v| vis(v));
        ghost.iter().for_each(|v| vis(v));
    }
    for c in live_c.iter() {
        if let Some(pr) = j.cpairs.iter().find(|p| p.2 == *c) {
            let (sa, sb) = (pr.0.clone(), pr.1.clone());
            let r = join_elems(a, b, &sa, &sb, *c, &ra, &rb, &ea, &eb, &j.lens, widen);
            // was something known on the left lost?
            if let [Seg::Sub(ca, ..)] = &sa[..] {
                let n = a.econs.get(ca).map_or(0, |v| v.len());
                let kept = r.1;
                if kept < n {
                    j.lost = true;
                }
                if a.ord.contains(ca) && !r.2 {
                    j.lost = true;
                }
            } else {
                j.lost = true;
            }
            if !r.0.is_empty() {
                econs.insert(*c, r.0);
            }
            if r.2 {
                ord.insert(*c);
            }
            continue;
        }
        match (a.econs.get(c), b.econs.get(c)) {
            (Some(x), Some(y)) => {
                let mut out = vec![];
                for k in x {
                    let k2 = on(&ra, k);
                    if y.contains(&on(&eb, &k2)) || entails_elem(b, *c, &on(&eb, &k2)) {
                        out.push(k2);
                    } else {
                        j.lost = true;
                    }
                }
                if !widen {
                    for k in y {
                        let k2 = on(&rb, k);
                        if !out.contains(&k2) && entails_elem(a, *c, &on(&ea, &k2)) {
                            out.push(k2);
                        }
                    }
                }
                econs.insert(*c, out);
            }
            (Some(x), None) => {
                // known on one side only: keep it if the other side never saw the content
                if !state_has_content(b, *c) {
                    econs.insert(*c, x.iter().map(|k| on(&ra, k)).collect());
                } else {
                    j.lost = true;
                }
            }
            (None, Some(y)) => {
                if !state_has_content(a, *c) {
                    econs.insert(*c, y.iter().map(|k| on(&rb, k)).collect());
                }
            }
            _ => {}
        }
        let (oa, ob) = (a.ord.contains(c), b.ord.contains(c));
        if (oa && ob) || (oa && !state_has_content(b, *c)) || (ob && !state_has_content(a, *c)) {
            ord.insert(*c);
        } else if oa {
            j.lost = true;
        }
    }
    let taint = a.taint || b.taint;
    if b.taint && !a.taint {
        j.lost = true;
    }
    let st = State { frames, heap: Rc::new(heap), ghost: Rc::new(ghost), cs, econs: Rc::new(econs), ord: Rc::new(ord), reads: Rc::new(reads), taint };
    Some(JoinRes { st, stable: !j.lost })
}
fn state_has_content(s: &State, c: CId) -> bool {
    let mut r = false;
    let mut vis = |v: &V| {
        walk(v, &mut |i| {
            if let Item::Cont(d) = i {
                r |= c == d;
            }
        })
    };
    s.frames.iter().for_each(|f| f.iter().for_each(|v| vis(v)));
    s.heap.values().for_each(|v| vis(v));
    s.ghost.iter().for_each(|v| vis(v));
    r
}
/// does every element of content c satisfy `k` (phrased over the representative)?
pub fn entails_elem(s: &State, c: CId, k: &Con) -> bool {
    let mut t = s.cs.clone();
    t.guards.clear();
    if let Some(e) = s.econs.get(&c) {
        for x in e {
            t.add(x);
        }
    }
    t.bot || t.entails(k)
}
/// constraints satisfied by every element of both sequences, over the representative of `c`.
/// Returns (constraints, how many of the left's survived, ordered).
fn join_elems(
    a: &State,
    b: &State,
    sa: &[Seg],
    sb: &[Seg],
    c: CId,
    ra: &HashMap<Sym, Lin>,
    rb: &HashMap<Sym, Lin>,
    ea: &HashMap<Sym, Lin>,
    eb: &HashMap<Sym, Lin>,
    lens: &[Lin],
    widen: bool,
) -> (Vec<Con>, usize, bool) {
    let ordered = seq_ordered(a, sa) && seq_ordered(b, sb);
    let Some(rep) = cont_rep(c) else { return (vec![], 0, ordered) };
    let mut tsyms: Vec<Sym> = vec![];
    walk(&rep, &mut |i| {
        if let Item::Lin(l) = i {
            if let Some((s, 0)) = l.as_sym_plus() {
                tsyms.push(s);
            }
        }
    });
    if tsyms.is_empty() || tsyms.len() > 8 {
        return (vec![], 0, ordered);
    }
    // maps from representative symbols of c to each piece's
    let piece = |st: &State, g: &Seg| -> Option<(HashMap<Sym, Lin>, Cs)> {
        let (v, mut cs) = match g {
            Seg::El(v) => (v.clone(), st.cs.clone()),
            Seg::Sub(d, ..) => {
                let r = cont_rep(*d)?;
                let mut cs = st.cs.clone();
                if let Some(e) = st.econs.get(d) {
                    for x in e {
                        cs.add(x);
                    }
                }
                (r, cs)
            }
        };
        cs.guards.clear();
        let mut m = HashMap::new();
        let mut n = 0;
        pair_lins(&rep, &v, &mut |x, y| {
            if let Some((s, 0)) = x.as_sym_plus() {
                m.insert(s, y.clone());
                n += 1;
            }
        });
        if n < tsyms.len() {
            return None;
        }
        Some((m, cs))
    };
    let mut pa = vec![];
    for g in sa {
        match piece(a, g) {
            Some(p) => pa.push(p),
            None => return (vec![], 0, ordered),
        }
    }
    let mut pb = vec![];
    for g in sb {
        match piece(b, g) {
            Some(p) => pb.push(p),
            None => return (vec![], 0, ordered),
        }
    }
    let mut cand: Vec<(Con, bool)> = vec![];
    let inv = |m: &HashMap<Sym, Lin>| -> HashMap<Sym, Lin> {
        let mut r = HashMap::new();
        for (s, l) in m {
            if let Some((x, k)) = l.as_sym_plus() {
                r.entry(x).or_insert_with(|| Lin::s(*s).addk(-k));
            }
        }
        r
    };
    for (ps, ren, left, st, segs) in [(&pa, ra, true, a, sa), (&pb, rb, false, b, sb)] {
        if !left && widen {
            continue;
        }
        for ((m, cs), g) in ps.iter().zip(segs.iter()) {
            let im = inv(m);
            let src: Vec<Con> = match g {
                Seg::Sub(d, ..) => st.econs.get(d).cloned().unwrap_or_default(),
                Seg::El(_) => cs.cons.iter().filter(|k| k.l.t.iter().any(|p| im.contains_key(&p.0))).cloned().collect(),
            };
            for k in src {
                let k2 = k.map(&|s| im.get(&s).cloned().or_else(|| ren.get(&s).cloned()));
                cand.push((k2, left && segs.len() == 1 && matches!(g, Seg::Sub(..))));
            }
            if !widen {
                for t in &tsyms {
                    let l = &m[t];
                    let (lo, hi) = cs.interval(l);
                    if let Some(p) = lo {
                        cand.push((Con::ge(Lin::s(*t).addk(-p)), false));
                    }
                    if let Some(p) = hi {
                        cand.push((Con::ge(Lin::s(*t).neg().addk(p)), false));
                    }
                }
            }
        }
    }
    if !widen {
        let mut ls: Vec<Lin> = vec![];
        for l in lens {
            if l.is_const().is_none() && !ls.contains(l) {
                ls.push(l.clone());
            }
        }
        // joined values in scope (loop counters and the like)
        for (_, r) in ra.iter() {
            if !ls.contains(r) {
                ls.push(r.clone());
            }
        }
        ls.truncate(24);
        // what the harness holds fixed (the same on both sides)
        let mut gs: Vec<Lin> = vec![];
        let mut gb: Vec<Lin> = vec![];
        b.ghost.iter().for_each(|v| walk(v, &mut |i| if let Item::Lin(l) = i { gb.push(l.clone()) }));
        a.ghost.iter().for_each(|v| walk(v, &mut |i| if let Item::Lin(l) = i {
            if l.is_const().is_none() && l.as_sym_plus().is_some() && gb.contains(l) && !gs.contains(l) {
                gs.push(l.clone())
            }
        }));
        if gs.len() <= 4 {
            for t in &tsyms {
                for l in &gs {
                    cand.push((Con::lt2(&Lin::s(*t), l), false));
                    cand.push((Con::le2(l, &Lin::s(*t)), false));
                }
            }
        }
        for t in &tsyms {
            for l in &ls {
                cand.push((Con::lt2(&Lin::s(*t), l), false));
                cand.push((Con::le2(&Lin::s(*t), l), false));
            }
            for u in &tsyms {
                if t != u {
                    cand.push((Con::lt2(&Lin::s(*t), &Lin::s(*u)), false));
                    cand.push((Con::le2(&Lin::s(*t), &Lin::s(*u)), false));
                }
            }
        }
    }
    let mut out: Vec<Con> = vec![];
    let mut kept = 0;
    for (k, left) in cand {
        if k.triv().is_some() || out.contains(&k) {
            if left {
                kept += 1;
            }
            continue;
        }
        let chk = |ps: &Vec<(HashMap<Sym, Lin>, Cs)>, ev: &HashMap<Sym, Lin>| -> bool {
            ps.iter().all(|(m, cs)| cs.bot || cs.entails(&k.map(&|s| m.get(&s).cloned().or_else(|| ev.get(&s).cloned()))))
        };
        if chk(&pa, ea) && chk(&pb, eb) {
            // skip what is implied by earlier ones syntactically stronger
            if left {
                kept += 1;
            }
            out.push(k);
        }
    }
    // drop redundant ones
    let mut i = 0;
    while i < out.len() && out.len() > 1 {
        let mut t = Cs::default();
        for (n, k) in out.iter().enumerate() {
            if n != i {
                t.add(k);
            }
        }
        if !t.bot && t.entails(&out[i]) && !widen {
            out.remove(i);
        } else {
            i += 1;
        }
    }
    (out, kept, ordered)
}
fn pair_of(v: &V) -> Option<(Lin, Lin)> {
    match v {
        V::Agg(a) if a.len() == 2 => match (&a[0], &a[1]) {
            (V::Int(x), V::Int(y)) => Some((x.clone(), y.clone())),
            _ => None,
        },
        _ => None,
    }
}
/// are the (start, end) pairs of this sequence in order and disjoint?
pub fn seq_ordered(s: &State, segs: &[Seg]) -> bool {
    let mut prev: Vec<(V, Option<CId>)> = vec![];
    for g in segs {
        let (v, c) = match g {
            Seg::El(v) => (v.clone(), None),
            Seg::Sub(c, a, b) => {
                let one = b.sub(a).is_const() == Some(1);
                if !one && !s.ord.contains(c) {
                    return false;
                }
                if one {
                    (read_content(*c, a), Some(*c))
                } else {
                    match cont_rep(*c) {
                        Some(v) => (v, Some(*c)),
                        None => return false,
                    }
                }
            }
        };
        let Some((st, _)) = pair_of(&v) else { return false };
        for (pv, pc) in &prev {
            let Some((_, en)) = pair_of(pv) else { return false };
            let mut cs = s.cs.clone();
            for k in [pc, &c].into_iter().flatten() {
                if let Some(e) = s.econs.get(k) {
                    for x in e {
                        cs.add(x);
                    }
                }
            }
            if !cs.bot && !cs.entails(&Con::le2(&en, &st)) {
                return false;
            }
        }
        prev.push((v, c));
    }
    true
}
