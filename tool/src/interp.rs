//! Abstract interpretation of MIR bodies.
use crate::lin::*;
use crate::state::*;
use crate::val::*;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub enum W {
    B(usize),
    C(usize, Vec<W>),
}
pub struct BodyInfo {
    pub body: Body,
    pub wto: Vec<W>,
    pub live_in: Vec<Vec<bool>>,
    pub name: String,
    pub is_liner: bool,
    pub nblocks: usize,
}
pub struct Report {
    pub prop: String,
    pub key: String,
    pub text: String,
    pub n: usize,
}
#[derive(Default)]
pub struct Stats {
    pub funcs: BTreeSet<String>,
    pub calls: u64,
    pub blocks: u64,
    pub joins: u64,
    pub oblig: BTreeMap<String, (u64, u64, u64)>, // key -> proven, failed, undecided
    pub unmodelled: BTreeMap<String, u64>,
    pub taint_src: BTreeMap<String, u64>,
    pub contracts: BTreeMap<String, u64>,
    pub loops: u64,
    pub missing: BTreeSet<String>,
    pub nonconv: BTreeMap<String, u64>,
}
pub struct Interp {
    pub bodies: HashMap<Instance, Option<Rc<BodyInfo>>>,
    pub models: HashMap<String, FnDef>,
    pub contracts: HashMap<String, FnDef>,
    pub no_contract: HashSet<String>,
    pub stack: Vec<(Instance, Rc<BodyInfo>)>,
    pub spans: Vec<String>,
    pub quiet: u32,
    pub reports: BTreeMap<(String, String), Report>,
    pub stats: Stats,
    pub consts: HashMap<MirConst, V>,
    pub statics: HashMap<String, HId>,
    pub lim: [usize; 3],
    pub on_key: bool,
    pub trace: u32,
    pub opts: HashSet<String>,
    pub prof: HashMap<String, (u64, f64)>,
    pub deadline: Option<std::time::Instant>,
    pub timed_out: bool,
    /// the case of the root under analysis: (value, number of values) per digit
    pub cases: Vec<(usize, usize)>,
    pub n_cases: u64,
}

type Pend = Vec<Vec<State>>;

impl Interp {
    pub fn case_name(&self) -> String {
        self.cases.iter().map(|c| c.0.to_string()).collect::<Vec<_>>().join(".")
    }
    pub fn new() -> Interp {
        Interp {
            bodies: HashMap::new(),
            models: HashMap::new(),
            contracts: HashMap::new(),
            no_contract: HashSet::new(),
            stack: vec![],
            spans: vec![],
            quiet: 0,
            reports: BTreeMap::new(),
            stats: Stats::default(),
            consts: HashMap::new(),
            statics: HashMap::new(),
            lim: default_lim(),
            on_key: false,
            trace: std::env::var("LL_TRACE").ok().and_then(|s| s.parse().ok()).unwrap_or(0),
            opts: HashSet::new(),
            prof: HashMap::new(),
            deadline: None,
            cases: vec![],
            n_cases: 0,
            timed_out: false,
        }
    }
    pub fn body(&mut self, i: Instance) -> Option<Rc<BodyInfo>> {
        if let Some(b) = self.bodies.get(&i) {
            return b.clone();
        }
        let r = i.body().map(|b| {
            let wto = build_wto(&b);
            let live_in = liveness(&b);
            let name = i.name().to_string();
            let dn = i.def.name().to_string();
            let is_liner = dn.contains("liner::") || dn.starts_with("harness::");
            let nblocks = b.blocks.len();
            Rc::new(BodyInfo { body: b, wto, live_in, name: dn, is_liner, nblocks })
        });
        self.bodies.insert(i, r.clone());
        r
    }
    /// innermost function of the code under analysis
    pub fn where_(&self) -> String {
        for (i, b) in self.stack.iter().rev() {
            let _ = i;
            if b.name.contains("liner::") {
                return b.name.clone();
            }
        }
        self.stack.last().map(|x| x.1.name.clone()).unwrap_or_default()
    }
    fn call_stack(&self) -> String {
        let mut s = String::new();
        for (n, (_, b)) in self.stack.iter().enumerate().rev() {
            s += &format!("    in {} at {}\n", b.name, self.spans.get(n).cloned().unwrap_or_default());
        }
        s
    }
    /// record an obligation: `c` must hold. Returns the state under the assumption that it does.
    pub fn require(&mut self, st: &mut State, prop: &str, c: &Con, what: &str) -> bool {
        let c = st.cs.normc(c);
        if c.triv() == Some(true) || st.cs.entails(&c) || st.cs.refutes_negation(&c) {
            self.note(prop, what, 0);
            return true;
        }
        let tainted = st.taint || lin_taint(&c.l);
        if tainted {
            self.note(prop, what, 2);
        } else {
            self.note(prop, what, 1);
            self.report(st, prop, what, &format!("cannot establish {}", c.show()));
        }
        st.assume(&c)
    }
    pub fn note(&mut self, prop: &str, what: &str, k: u8) {
        if self.quiet > 0 {
            return;
        }
        let key = format!("{} {}: {}", prop, self.where_(), what);
        let e = self.stats.oblig.entry(key).or_default();
        match k {
            0 => e.0 += 1,
            1 => e.1 += 1,
            _ => e.2 += 1,
        }
    }
    pub fn report(&mut self, st: &State, prop: &str, what: &str, detail: &str) {
        if self.quiet > 0 {
            return;
        }
        let key = format!("{}: {}", self.where_(), what);
        let k = (prop.to_string(), key.clone());
        if let Some(r) = self.reports.get_mut(&k) {
            r.n += 1;
            return;
        }
        let text = format!(
            "property {}\nobligation: {}\ncase: {}\nin function: {}\n{}\ncall path (innermost first):\n{}\npath condition:\n{}\n",
            prop,
            what,
            self.case_name(),
            self.where_(),
            detail,
            self.call_stack(),
            st.cs.show()
        );
        if self.trace > 0 {
            eprintln!("REPORT {} {}\n{}", prop, key, text);
        }
        self.reports.insert(k, Report { prop: prop.to_string(), key, text, n: 1 });
    }
    /// control reached a point that must be unreachable
    pub fn must_not_reach(&mut self, st: &State, prop: &str, what: &str) {
        if st.taint {
            self.note(prop, what, 2);
        } else {
            self.note(prop, what, 1);
            self.report(st, prop, what, "reachable");
        }
    }

    // ------------------------------------------------------------ merging
    pub fn merge(&mut self, mut v: Vec<State>, lim: [usize; 3]) -> Vec<State> {
        if v.len() <= 1 {
            return v;
        }
        for s in v.iter_mut() {
            s.gc();
        }
        v.retain(|s| !s.cs.bot);
        if v.len() <= lim[0] {
            return v;
        }
        for (level, layout, n) in [(0u8, true, lim[0]), (1, true, lim[1]), (1, false, lim[1]), (2, false, lim[2])] {
            let mut groups: Vec<(u64, State)> = vec![];
            for s in v {
                let k = s.key_l(level, layout);
                let mut done = false;
                for g in groups.iter_mut() {
                    if g.0 == k {
                        self.stats.joins += 1;
                        if let Some(r) = join(&g.1, &s, false, false) {
                            if self.trace >= 9 && watch(&g.1) && watch(&s) && !watch(&r.st) || self.trace >= 5 && self.trace < 9 {
                                eprintln!("merge in {}\n  left {}\n  right {}\n  joined {}", self.stack.last().map_or(String::new(), |x| x.1.name.clone()), show_state(&g.1), show_state(&s), show_state(&r.st));
                            }
                            g.1 = r.st;
                            done = true;
                            break;
                        } else if level == 2 && self.trace > 1 {
                            eprintln!("join failed at level 2");
                        }
                    }
                }
                if !done {
                    groups.push((k, s));
                }
            }
            if self.trace == 7 {
                eprintln!("MERGE level {} {} in {} -> {}", level, layout, self.stack.last().map_or(String::new(), |x| x.1.name.clone()), groups.len());
            }
            v = groups.into_iter().map(|g| g.1).collect();
            if v.len() <= n {
                break;
            }
        }
        v
    }

    // ------------------------------------------------------------ calls
    pub fn run_body(&mut self, inst: Instance, bi: Rc<BodyInfo>, args: Vec<V>, mut st: State) -> Out<V> {
        let depth = st.frames.len();
        if depth > 120 {
            *self.stats.unmodelled.entry(format!("depth limit in {}", bi.name)).or_default() += 1;
            st.taint = true;
            let rt = bi.body.locals()[0].ty;
            return vec![(st, fresh_val(rt, "deep", true))];
        }
        let nl = bi.body.locals().len();
        let mut fr = vec![V::Undef; nl];
        let na = bi.body.arg_locals().len();
        for (i, a) in args.into_iter().enumerate() {
            if i < na {
                fr[i + 1] = a;
            }
        }
        st.frames.push(Rc::new(fr));
        self.stack.push((inst, bi.clone()));
        self.spans.push(String::new());
        self.stats.calls += 1;
        if self.quiet == 0 && bi.is_liner {
            self.stats.funcs.insert(bi.name.clone());
        }
        let t0 = std::time::Instant::now();
        let mut pend: Pend = vec![vec![]; bi.nblocks];
        pend[0].push(st);
        let mut rets: Vec<State> = vec![];
        self.exec(&bi, &bi.wto, &mut pend, &mut rets, depth);
        self.stack.pop();
        self.spans.pop();
        if rets.len() > 1 {
            // only the return value survives
            for s in rets.iter_mut() {
                let f = Rc::make_mut(&mut s.frames[depth]);
                for i in 1..f.len() {
                    f[i] = V::Undef;
                }
            }
            // a key handled within a key: one outcome of each kind
            let lim = if bi.name.ends_with("rec_vi") { [1, 1, 1] } else { self.lim };
            if self.on_key && is_result(bi.body.locals()[0].ty) {
                // failures are all alike
                let (errs, oks): (Vec<State>, Vec<State>) = rets.into_iter().partition(|s| matches!(&s.frames[depth][0], V::Enum(d, _) if d.is_const() == Some(1)));
                rets = self.merge(oks, lim);
                rets.extend(self.merge(errs, [1, 1, usize::MAX]));
            } else {
                rets = self.merge(rets, lim);
            }
        }
        let mut out = Vec::with_capacity(rets.len());
        for mut s in rets {
            let v = s.frames[depth][0].clone();
            s.frames.truncate(depth);
            if s.cs.cons.len() > 60 {
                // keep the constraint store small
                let d = s.frames.len();
                s.frames.push(Rc::new(vec![v]));
                s.gc();
                let v2 = s.frames[d][0].clone();
                s.frames.truncate(d);
                if s.cs.bot {
                    continue;
                }
                out.push((s, v2));
            } else {
                out.push((s, v));
            }
        }
        if self.trace >= 2 || std::env::var("LL_PROF").is_ok() {
            let e = self.prof.entry(bi.name.clone()).or_default();
            e.0 += 1;
            e.1 += t0.elapsed().as_secs_f64();
        }
        if self.trace >= 3 && bi.is_liner {
            eprintln!("{}ret {} states {} quiet {}", "  ".repeat(self.stack.len()), bi.name, out.len(), self.quiet);
        }
        out
    }
    fn exec(&mut self, bi: &Rc<BodyInfo>, list: &[W], pend: &mut Pend, rets: &mut Vec<State>, depth: usize) {
        for w in list {
            match w {
                W::B(b) => {
                    let v = std::mem::take(&mut pend[*b]);
                    if v.is_empty() {
                        continue;
                    }
                    let v = self.arrive(bi, *b, v, depth);
                    for s in v {
                        self.run_block(bi, *b, s, pend, rets, depth);
                    }
                }
                W::C(h, body) => {
                    let v = std::mem::take(&mut pend[*h]);
                    if v.is_empty() {
                        continue;
                    }
                    let v = self.arrive(bi, *h, v, depth);
                    self.exec_loop(bi, *h, body, v, pend, rets, depth);
                }
            }
        }
    }
    fn clear_dead(&self, bi: &BodyInfo, b: usize, st: &mut State, depth: usize) {
        let live = &bi.live_in[b];
        let f = &st.frames[depth];
        if f.iter().enumerate().any(|(i, v)| !live[i] && !matches!(v, V::Undef)) {
            let f = Rc::make_mut(&mut st.frames[depth]);
            for (i, v) in f.iter_mut().enumerate() {
                if !live[i] {
                    *v = V::Undef;
                }
            }
        }
    }
    fn arrive(&mut self, bi: &BodyInfo, b: usize, mut v: Vec<State>, depth: usize) -> Vec<State> {
        if v.len() > 1 {
            for s in v.iter_mut() {
                self.clear_dead(bi, b, s, depth);
            }
            let lim = self.lim;
            v = self.merge(v, lim);
        }
        v
    }
    fn exec_loop(&mut self, bi: &Rc<BodyInfo>, h: usize, body: &[W], init: Vec<State>, pend: &mut Pend, rets: &mut Vec<State>, depth: usize) {
        self.stats.loops += 1;
        let mut inside = vec![false; bi.nblocks];
        inside[h] = true;
        mark(body, &mut inside);
        let count_out = |pend: &Pend, rets: &Vec<State>| -> usize { pend.iter().enumerate().filter(|(i, _)| !inside[*i]).map(|(_, v)| v.len()).sum::<usize>() + rets.len() };
        let lim = self.lim;
        let init_n = init.len();
        let mut cur = init;
        // peel
        let mut n = 0;
        let room = 3 * init_n;
        loop {
            let before = count_out(pend, rets);
            let single = cur.len();
            for s in cur {
                self.run_block(bi, h, s, pend, rets, depth);
            }
            self.exec(bi, body, pend, rets, depth);
            cur = std::mem::take(&mut pend[h]);
            if cur.is_empty() {
                return;
            }
            for s in cur.iter_mut() {
                self.clear_dead(bi, h, s, depth);
            }
            cur = self.merge(cur, lim);
            if cur.is_empty() {
                return;
            }
            n += 1;
            let det = count_out(pend, rets) == before && cur.len() <= single.max(room);
            if det && n < 40 {
                continue;
            }
            break;
        }
        // fixpoint
        let mut inv: Vec<(u64, State, u32)> = vec![];
        let level = 1u8;
        let add = |me: &mut Interp, inv: &mut Vec<(u64, State, u32)>, s: State| -> bool {
            let k = s.key(level);
            for e in inv.iter_mut() {
                if e.0 == k {
                    me.stats.joins += 1;
                    let widen = e.2 >= 3;
                    if let Some(r) = join(&e.1, &s, widen, e.2 == 0) {
                        if r.stable {
                            return false;
                        }
                        if me.trace >= 9 && watch(&e.1) && watch(&s) && !watch(&r.st) || me.trace >= 4 && me.trace < 9 {
                            eprintln!("loop {} bb{} unstable ({})\n  left {}\n  right {}\n  joined {}", bi.name, h, e.2, show_state(&e.1), show_state(&s), show_state(&r.st));
                        }
                        e.1 = r.st;
                        e.1.gc();
                        e.2 += 1;
                        return true;
                    }
                }
            }
            inv.push((k, s, 0));
            true
        };
        for s in cur {
            add(self, &mut inv, s);
        }
        let mut iter = 0;
        loop {
            iter += 1;
            let mut changed = false;
            let saved: Vec<usize> = pend.iter().map(|v| v.len()).collect();
            let rsaved = rets.len();
            self.quiet += 1;
            for (_, s, _) in inv.iter().map(|e| (e.0, e.1.clone(), e.2)).collect::<Vec<_>>() {
                self.run_block(bi, h, s, pend, rets, depth);
            }
            self.exec(bi, body, pend, rets, depth);
            self.quiet -= 1;
            let mut back = std::mem::take(&mut pend[h]);
            for (i, v) in pend.iter_mut().enumerate() {
                v.truncate(if inside[i] { 0 } else { saved[i] });
            }
            rets.truncate(rsaved);
            for s in back.iter_mut() {
                self.clear_dead(bi, h, s, depth);
                s.gc();
            }
            back.retain(|s| !s.cs.bot);
            for s in back {
                if add(self, &mut inv, s) {
                    changed = true;
                }
            }
            if self.trace >= 3 {
                eprintln!("{}loop {} bb{} iter {} inv {} changed {}", "  ".repeat(self.stack.len()), bi.name, h, iter, inv.len(), changed);
            }
            if !changed {
                break;
            }
            if iter > 14 || self.out_of_time() {
                *self.stats.nonconv.entry(format!("{} bb{}", bi.name, h)).or_default() += 1;
                for e in inv.iter_mut() {
                    e.1.taint = true;
                    e.1.cs.cons.clear();
                    e.1.cs.guards.clear();
                }
                break;
            }
        }
        // final pass with reporting
        for (_, s, _) in inv {
            self.run_block(bi, h, s, pend, rets, depth);
        }
        self.exec(bi, body, pend, rets, depth);
        pend[h].clear();
    }
    pub fn out_of_time(&mut self) -> bool {
        if let Some(d) = self.deadline {
            if std::time::Instant::now() > d {
                self.timed_out = true;
            }
        }
        self.timed_out
    }
    fn run_block(&mut self, bi: &Rc<BodyInfo>, b: usize, st: State, pend: &mut Pend, rets: &mut Vec<State>, depth: usize) {
        if st.cs.bot || self.timed_out {
            return;
        }
        self.stats.blocks += 1;
        if self.stats.blocks % 256 == 0 {
            self.out_of_time();
        }
        let blk = &bi.body.blocks[b];
        let mut sts = vec![st];
        for stmt in &blk.statements {
            match &stmt.kind {
                StatementKind::Assign(p, rv) => {
                    let mut n = Vec::with_capacity(sts.len());
                    for s in sts {
                        if p.projection.is_empty() {
                            for (mut s2, v) in self.rvalue(bi, s, rv, depth) {
                                if s2.cs.bot {
                                    continue;
                                }
                                s2.set_base(Base::Local(depth as u32, p.local as u32), v);
                                n.push(s2);
                            }
                        } else {
                            for (s2, v) in self.rvalue(bi, s, rv, depth) {
                                if s2.cs.bot {
                                    continue;
                                }
                                n.extend(self.assign(bi, s2, p, v, depth));
                            }
                        }
                    }
                    sts = n;
                }
                StatementKind::SetDiscriminant { place, variant_index } => {
                    let mut n = vec![];
                    for s in sts {
                        for (s2, p) in self.place_ptr(bi, s, place, depth) {
                            for (s3, v) in s2.load(&p) {
                                let v2 = match v {
                                    V::Enum(_, pl) => V::Enum(Lin::k(variant_index.to_index_() as i128), pl),
                                    _ => V::Top,
                                };
                                n.extend(s3.store(&p, v2));
                            }
                        }
                    }
                    sts = n;
                }
                StatementKind::StorageDead(l) => {
                    for s in sts.iter_mut() {
                        if !matches!(s.frames[depth][*l], V::Undef) {
                            s.set_base(Base::Local(depth as u32, *l as u32), V::Undef);
                        }
                    }
                }
                StatementKind::StorageLive(l) => {
                    for s in sts.iter_mut() {
                        if !matches!(s.frames[depth][*l], V::Undef) {
                            s.set_base(Base::Local(depth as u32, *l as u32), V::Undef);
                        }
                    }
                }
                _ => {}
            }
        }
        for s in sts {
            self.terminator(bi, s, &blk.terminator, pend, rets, depth);
        }
    }
    fn assign(&mut self, bi: &Rc<BodyInfo>, st: State, p: &Place, v: V, depth: usize) -> Vec<State> {
        let mut out = vec![];
        for (s, ptr) in self.place_ptr(bi, st, p, depth) {
            match ptr_valid(&ptr) {
                true => out.extend(s.store(&ptr, v.clone())),
                false => {
                    let mut s = s;
                    s.taint = true;
                    *self.stats.taint_src.entry(format!("store through unknown pointer in {}", bi.name)).or_default() += 1;
                    out.push(s)
                }
            }
        }
        out
    }
    /// resolve a place to a pointer
    pub fn place_ptr(&mut self, bi: &Rc<BodyInfo>, st: State, p: &Place, depth: usize) -> Out<Ptr> {
        let mut cur: Out<Ptr> = vec![(st, Ptr::new(Base::Local(depth as u32, p.local as u32)))];
        for e in &p.projection {
            let mut next: Out<Ptr> = vec![];
            for (s, ptr) in cur {
                match e {
                    ProjectionElem::Field(i, _) => next.push((s, ptr.push(Pj::F(*i as u32)))),
                    ProjectionElem::Downcast(v) => next.push((s, ptr.push(Pj::Dc(v.to_index_() as u32)))),
                    ProjectionElem::OpaqueCast(_) => next.push((s, ptr)),
                    ProjectionElem::Deref => {
                        for (s2, v) in s.load(&ptr) {
                            match deref(&v) {
                                Some(p2) => next.push((s2, p2)),
                                None => next.push((s2, invalid_ptr())),
                            }
                        }
                    }
                    ProjectionElem::Index(l) => {
                        let mut s = s;
                        let iv = s.base(Base::Local(depth as u32, *l as u32));
                        let idx = match iv {
                            V::Int(l) => l,
                            _ => {
                                s.taint = true;
                                Lin::k(0)
                            }
                        };
                        let idx = match &ptr.meta {
                            Some((lo, _)) => lo.add(&idx),
                            None => idx,
                        };
                        next.push((s, ptr.push(Pj::At(idx))));
                    }
                    ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                        for (s2, len) in self.ptr_len(s, &ptr) {
                            let idx = if *from_end { len.addk(-(*offset as i128)) } else { Lin::k(*offset as i128) };
                            let idx = match &ptr.meta {
                                Some((lo, _)) => lo.add(&idx),
                                None => idx,
                            };
                            next.push((s2, ptr.push(Pj::At(idx))));
                        }
                    }
                    ProjectionElem::Subslice { from, to, from_end } => {
                        for (s2, len) in self.ptr_len(s, &ptr) {
                            let (lo, _) = ptr.meta.clone().unwrap_or((Lin::k(0), len.clone()));
                            let f = Lin::k(*from as i128);
                            let e = if *from_end { len.addk(-(*to as i128)) } else { Lin::k(*to as i128) };
                            let mut q = ptr.clone();
                            q.meta = Some((lo.add(&f), e.sub(&f)));
                            next.push((s2, q));
                        }
                    }
                }
            }
            cur = next;
        }
        let _ = bi;
        cur
    }
    pub fn ptr_len(&mut self, st: State, ptr: &Ptr) -> Out<Lin> {
        if let Some((_, n)) = &ptr.meta {
            return vec![(st, n.clone())];
        }
        st.load(ptr)
            .into_iter()
            .map(|(s, v)| match v {
                V::Seq(q) => {
                    let l = s.cs.norm(&seq_len(&q));
                    (s, l)
                }
                _ => (s, Lin::s(fresh(Some(0), None, true, "len"))),
            })
            .collect()
    }
    pub fn operand(&mut self, bi: &Rc<BodyInfo>, st: State, o: &Operand, depth: usize) -> Out<V> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let mv = matches!(o, Operand::Move(_));
                if p.projection.is_empty() {
                    let mut st = st;
                    let b = Base::Local(depth as u32, p.local as u32);
                    let v = st.base(b);
                    if mv && !matches!(v, V::Undef) && !bi_addr_taken(bi, p.local) {
                        st.set_base(b, V::Undef);
                    }
                    let v = match v {
                        V::Int(l) if !l.t.is_empty() => V::Int(st.cs.norm(&l)),
                        v => v,
                    };
                    return vec![(st, v)];
                }
                let mut out = vec![];
                for (s, ptr) in self.place_ptr(bi, st, p, depth) {
                    if !ptr_valid(&ptr) {
                        let ty = p.ty(bi.body.locals()).ok();
                        out.push((s, ty.map_or(V::Top, |t| fresh_val(t, "unk", true))));
                        continue;
                    }
                    out.extend(s.load(&ptr));
                }
                out
            }
            Operand::Constant(c) => {
                let v = self.constant(&c.const_);
                vec![(st, v)]
            }
            Operand::RuntimeChecks(_) => vec![(st, vbool(false))],
        }
    }
    pub fn constant(&mut self, c: &MirConst) -> V {
        if let Some(v) = self.consts.get(c) {
            return v.clone();
        }
        let v = self.constant_(c);
        self.consts.insert(c.clone(), v.clone());
        v
    }
    fn constant_(&mut self, c: &MirConst) -> V {
        let ty = c.ty();
        match c.kind() {
            ConstantKind::ZeroSized => self.zst(ty),
            ConstantKind::Allocated(a) => self.decode(ty, a, 0),
            ConstantKind::Ty(t) => match t.kind() {
                TyConstKind::Value(ty, a) => self.decode(*ty, a, 0),
                TyConstKind::ZSTValue(ty) => self.zst(*ty),
                _ => fresh_val(ty, "const", true),
            },
            _ => {
                *self.stats.unmodelled.entry(format!("const {:?}", c.kind()).chars().take(80).collect()).or_default() += 1;
                fresh_val(ty, "const", true)
            }
        }
    }
    fn zst(&mut self, ty: Ty) -> V {
        match rigid(ty) {
            Some(RigidTy::FnDef(..)) | Some(RigidTy::Never) => unit(),
            Some(RigidTy::Closure(..)) => unit(),
            Some(RigidTy::Tuple(t)) => agg(t.iter().map(|t| self.zst(*t)).collect()),
            Some(RigidTy::Array(..)) => seq(vec![]),
            Some(RigidTy::Adt(..)) => {
                let i = adt_info(ty).unwrap();
                match i.kind {
                    AdtK::Struct => {
                        let f: Vec<Ty> = i.variants[0].iter().map(|x| x.1).collect();
                        agg(f.into_iter().map(|t| self.zst(t)).collect())
                    }
                    AdtK::Seq => seq(vec![]),
                    _ => fresh_val(ty, "zst", false),
                }
            }
            _ => fresh_val(ty, "zst", false),
        }
    }
    fn rd(a: &Allocation, off: usize, n: usize) -> Option<u128> {
        let mut v = 0u128;
        for i in 0..n {
            v |= (a.bytes.get(off + i).cloned().flatten()? as u128) << (8 * i);
        }
        Some(v)
    }
    pub fn decode(&mut self, ty: Ty, a: &Allocation, off: usize) -> V {
        match self.decode_(ty, a, off) {
            Some(v) => v,
            None => {
                *self.stats.unmodelled.entry(format!("constant of type {}", ty_name(ty))).or_default() += 1;
                fresh_val(ty, "const", true)
            }
        }
    }
    fn decode_(&mut self, ty: Ty, a: &Allocation, off: usize) -> Option<V> {
        let size = |t: Ty| -> Option<usize> { Some(t.layout().ok()?.shape().size.bits() / 8) };
        Some(match rigid(ty)? {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => kint(Self::rd(a, off, size(ty)?)? as i128),
            RigidTy::Int(t) => {
                let n = t.num_bytes();
                let v = Self::rd(a, off, n)?;
                let s = if n < 16 && v >> (8 * n - 1) & 1 == 1 { v as i128 - (1i128 << (8 * n)) } else { v as i128 };
                kint(s)
            }
            RigidTy::Tuple(ts) => {
                if ts.is_empty() {
                    return Some(unit());
                }
                let sh = ty.layout().ok()?.shape();
                let crate::FieldsShape::Arbitrary { offsets } = &sh.fields else { return None };
                let mut v = vec![];
                for (i, t) in ts.iter().enumerate() {
                    v.push(self.decode(*t, a, off + offsets[i].bits() / 8));
                }
                agg(v)
            }
            RigidTy::Array(t, n) => {
                let n = n.eval_target_usize().ok()? as usize;
                let es = size(t)?;
                self.decode_elems(t, a, off, n, es)?
            }
            RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) => {
                let prov = a.provenance.ptrs.iter().find(|p| p.0 == off)?;
                let base = Self::rd(a, off, 8)? as usize;
                let ga = crate::GlobalAlloc::from(prov.1 .0);
                let (al, key) = match ga {
                    crate::GlobalAlloc::Memory(m) => (m, None),
                    crate::GlobalAlloc::Static(d) => (d.eval_initializer().ok()?, Some(d.name().to_string())),
                    _ => return None,
                };
                if let Some(k) = &key {
                    if let Some(h) = self.statics.get(k) {
                        return Some(V::Ref(Ptr::new(Base::Heap(*h))));
                    }
                }
                let (v, meta) = match rigid(t)? {
                    RigidTy::Str => {
                        let n = Self::rd(a, off + 8, 8)? as usize;
                        let mut b = vec![];
                        for i in 0..n {
                            b.push(al.bytes.get(base + i).cloned().flatten()?);
                        }
                        let s = String::from_utf8_lossy(&b).to_string();
                        let chars: Vec<i128> = s.chars().map(|c| c as i128).collect();
                        let l = chars.len() as i128;
                        (lit_seq(t_char(), chars), Some((Lin::k(0), Lin::k(l))))
                    }
                    RigidTy::Slice(et) => {
                        let n = Self::rd(a, off + 8, 8)? as usize;
                        let es = size(et)?;
                        (self.decode_elems(et, &al, base, n, es)?, Some((Lin::k(0), Lin::k(n as i128))))
                    }
                    RigidTy::Dynamic(..) => return None,
                    _ => (self.decode(t, &al, base), None),
                };
                let h = new_heap(v);
                if let Some(k) = key {
                    self.statics.insert(k, h);
                }
                V::Ref(Ptr { base: Base::Heap(h), path: Rc::new(vec![]), meta })
            }
            RigidTy::Adt(_, _) => {
                let i = adt_info(ty)?;
                if i.kind == AdtK::Seq {
                    // only empty vectors and strings can be constants
                    return Some(seq(vec![]));
                }
                if !matches!(i.kind, AdtK::Struct | AdtK::Enum) {
                    return Some(fresh_val(ty, "const", false));
                }
                let sh = ty.layout().ok()?.shape();
                if i.kind == AdtK::Struct {
                    let offs: Vec<usize> = match &sh.fields {
                        crate::FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bits() / 8).collect(),
                        _ => return None,
                    };
                    let fs: Vec<Ty> = i.variants[0].iter().map(|x| x.1).collect();
                    let mut v = vec![];
                    for (n, t) in fs.into_iter().enumerate() {
                        v.push(self.decode(t, a, off + offs[n]));
                    }
                    return Some(agg(v));
                }
                let (var, offs): (usize, Vec<usize>) = match &sh.variants {
                    crate::VariantsShape::Single { index } => {
                        let offs = match &sh.fields {
                            crate::FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bits() / 8).collect(),
                            _ => vec![],
                        };
                        (index.to_index_(), offs)
                    }
                    crate::VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &sh.fields {
                            crate::FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bits() / 8,
                            _ => 0,
                        };
                        let tsz = scalar_size(tag);
                        let isptr = a.provenance.ptrs.iter().any(|p| p.0 == off + toff);
                        let var = match tag_encoding {
                            crate::TagEncoding::Direct => {
                                let t = Self::rd(a, off + toff, tsz)?;
                                let m = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                i.discr.iter().position(|d| (*d as u128) & m == t)?
                            }
                            crate::TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if isptr {
                                    untagged_variant.to_index_()
                                } else {
                                    let t = Self::rd(a, off + toff, tsz)?;
                                    let m = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    let rel = t.wrapping_sub(*niche_start) & m;
                                    let cnt = (niche_variants.end().to_index_() - niche_variants.start().to_index_()) as u128;
                                    if rel <= cnt {
                                        niche_variants.start().to_index_() + rel as usize
                                    } else {
                                        untagged_variant.to_index_()
                                    }
                                }
                            }
                        };
                        (var, variants[var].offsets.iter().map(|o| o.bits() / 8).collect())
                    }
                    _ => return None,
                };
                let fs: Vec<Ty> = i.variants[var].iter().map(|x| x.1).collect();
                let mut v = vec![];
                for (n, t) in fs.into_iter().enumerate() {
                    v.push(self.decode(t, a, off + offs[n]));
                }
                variant(i.variants.len(), var, v)
            }
            RigidTy::FnPtr(_) => fresh_val(ty, "fnptr", false),
            RigidTy::FnDef(..) | RigidTy::Never | RigidTy::Closure(..) => self.zst(ty),
            _ => return None,
        })
    }
    fn decode_elems(&mut self, t: Ty, a: &Allocation, off: usize, n: usize, es: usize) -> Option<V> {
        if int_bounds(t).is_some() {
            let mut l = vec![];
            for i in 0..n {
                match self.decode_(t, a, off + i * es)? {
                    V::Int(x) => l.push(x.is_const()?),
                    _ => return None,
                }
            }
            return Some(lit_seq(t, l));
        }
        let mut v = vec![];
        for i in 0..n {
            v.push(Seg::El(self.decode(t, a, off + i * es)));
        }
        Some(seq(v))
    }
    fn rvalue(&mut self, bi: &Rc<BodyInfo>, st: State, rv: &Rvalue, depth: usize) -> Out<V> {
        let locals = bi.body.locals();
        match rv {
            Rvalue::Use(o, _) => self.operand(bi, st, o, depth),
            Rvalue::CopyForDeref(p) | Rvalue::Reborrow(_, _, p) => self.operand(bi, st, &Operand::Copy(p.clone()), depth),
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) => self
                .place_ptr(bi, st, p, depth)
                .into_iter()
                .map(|(s, ptr)| {
                    if ptr_valid(&ptr) {
                        (s, V::Ref(ptr))
                    } else {
                        let t = rv.ty(locals).ok();
                        (s, t.map_or(V::Top, |t| new_opq(t, "badref", true)))
                    }
                })
                .collect(),
            Rvalue::Len(p) => {
                let mut out = vec![];
                for (s, ptr) in self.place_ptr(bi, st, p, depth) {
                    for (s2, l) in self.ptr_len(s, &ptr) {
                        out.push((s2, V::Int(l)));
                    }
                }
                out
            }
            Rvalue::Discriminant(p) => {
                let ty = p.ty(locals).ok();
                let mut out = vec![];
                for (s, v) in self.operand(bi, st, &Operand::Copy(p.clone()), depth) {
                    out.extend(self.discr(s, &v, ty));
                }
                out
            }
            Rvalue::Repeat(o, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as i128;
                let ety = o.ty(locals).ok();
                self.operand(bi, st, o, depth)
                    .into_iter()
                    .map(|(s, v)| {
                        if n <= 16 {
                            (s, seq((0..n).map(|_| Seg::El(v.clone())).collect()))
                        } else {
                            let c = new_content(ety, "repeat", has_taint(&v));
                            (s, seq(vec![Seg::Sub(c, Lin::k(0), Lin::k(n))]))
                        }
                    })
                    .collect()
            }
            Rvalue::Aggregate(k, ops) => {
                let mut cur: Out<Vec<V>> = vec![(st, vec![])];
                for o in ops {
                    let mut n = vec![];
                    for (s, vs) in cur {
                        for (s2, v) in self.operand(bi, s, o, depth) {
                            let mut vs = vs.clone();
                            vs.push(v);
                            n.push((s2, vs));
                        }
                    }
                    cur = n;
                }
                let k = k.clone();
                cur.into_iter()
                    .map(|(s, vs)| {
                        let v = match &k {
                            AggregateKind::Array(_) => {
                                let n = s.nseq(vs.into_iter().map(Seg::El).collect());
                                seq(n)
                            }
                            AggregateKind::Tuple | AggregateKind::Closure(..) => agg(vs),
                            AggregateKind::Adt(def, var, args, _, fld) => {
                                let ty = def.ty_with_args(args);
                                let i = adt_info(ty).unwrap();
                                match i.kind {
                                    AdtK::Struct => {
                                        let _ = fld;
                                        agg(vs)
                                    }
                                    AdtK::Enum => variant(i.variants.len(), var.to_index_(), vs),
                                    _ => {
                                        // newtypes around pointers stay pointers
                                        match vs.first() {
                                            Some(V::Ref(p)) => V::Ref(p.clone()),
                                            _ => fresh_val(ty, "agg", true),
                                        }
                                    }
                                }
                            }
                            AggregateKind::RawPtr(..) => match (&vs[0], &vs[1]) {
                                (V::Ref(p), V::Int(n)) => {
                                    let mut p = p.clone();
                                    let lo = p.meta.as_ref().map(|m| m.0.clone()).unwrap_or(Lin::k(0));
                                    p.meta = Some((lo, n.clone()));
                                    V::Ref(p)
                                }
                                (V::Ref(p), _) => V::Ref(p.clone()),
                                _ => V::Top,
                            },
                            _ => V::Top,
                        };
                        (s, v)
                    })
                    .collect()
            }
            Rvalue::BinaryOp(op, a, b) | Rvalue::CheckedBinaryOp(op, a, b) => {
                let checked = matches!(rv, Rvalue::CheckedBinaryOp(..));
                let ty = a.ty(locals).unwrap();
                let mut out = vec![];
                for (s, x) in self.operand(bi, st, a, depth) {
                    for (s2, y) in self.operand(bi, s, b, depth) {
                        out.extend(self.binop(s2, *op, &x, &y, ty, checked));
                    }
                }
                out
            }
            Rvalue::UnaryOp(op, o) => {
                let ty = o.ty(locals).unwrap();
                let mut out = vec![];
                for (s, v) in self.operand(bi, st, o, depth) {
                    match op {
                        UnOp::Not => {
                            let r = match (&v, rigid(ty)) {
                                (V::Pred(c), _) => V::Pred(c.negate()),
                                (V::Int(l), Some(RigidTy::Bool)) => V::Int(l.neg().addk(1)),
                                (V::Int(_), _) => fresh_val(ty, "not", has_taint(&v)),
                                _ => fresh_val(ty, "not", true),
                            };
                            out.push((s, r));
                        }
                        UnOp::Neg => match &v {
                            V::Int(l) => out.push((s, V::Int(l.neg()))),
                            _ => out.push((s, fresh_val(ty, "neg", true))),
                        },
                        UnOp::PtrMetadata => match deref(&v) {
                            Some(p) => {
                                for (s2, l) in self.ptr_len(s, &p) {
                                    out.push((s2, V::Int(l)));
                                }
                            }
                            None => out.push((s, V::Top)),
                        },
                    }
                }
                out
            }
            Rvalue::Cast(k, o, ty) => {
                let from = o.ty(locals).unwrap();
                let mut out = vec![];
                for (s, v) in self.operand(bi, st, o, depth) {
                    out.extend(self.cast(s, *k, v, from, *ty));
                }
                out
            }
            Rvalue::ThreadLocalRef(_) => vec![(st, V::Top)],
        }
    }
    fn cast(&mut self, st: State, k: CastKind, v: V, from: Ty, to: Ty) -> Out<V> {
        match k {
            CastKind::IntToInt => {
                let V::Int(l) = &v else {
                    if let V::Pred(c) = &v {
                        let mut out = vec![];
                        let mut s1 = st.clone();
                        if s1.assume(c) {
                            out.push((s1, kint(1)));
                        }
                        let mut s0 = st;
                        if s0.assume(&c.negate()) {
                            out.push((s0, kint(0)));
                        }
                        return out;
                    }
                    return vec![(st, fresh_val(to, "cast", true))];
                };
                let (lo, hi) = int_bounds(to).unwrap_or((None, None));
                let (vl, vh) = st.cs.interval(l);
                let fits_lo = match (lo, vl) {
                    (None, _) => true,
                    (Some(a), Some(b)) => b >= a,
                    _ => false,
                };
                let fits_hi = match (hi, vh) {
                    (None, _) => true,
                    (Some(a), Some(b)) => b <= a,
                    _ => false,
                };
                if fits_lo && fits_hi {
                    return vec![(st, v)];
                }
                // narrow casts: split into the fitting and the wrapping part
                let mut out = vec![];
                let mut s1 = st.clone();
                let mut ok = true;
                if let Some(a) = lo {
                    ok &= s1.assume(&Con::ge(l.addk(-a)));
                }
                if let Some(b) = hi {
                    ok &= s1.assume(&Con::ge(l.neg().addk(b)));
                }
                if ok {
                    out.push((s1, v.clone()));
                }
                let taint = lin_taint(l);
                if !fits_hi {
                    let mut s2 = st.clone();
                    if s2.assume(&Con::ge(l.addk(-hi.unwrap() - 1))) {
                        out.push((s2, fresh_val(to, "wrapped", taint)));
                    }
                }
                if !fits_lo {
                    let mut s3 = st;
                    if s3.assume(&Con::ge(l.neg().addk(lo.unwrap() - 1))) {
                        out.push((s3, fresh_val(to, "wrapped", taint)));
                    }
                }
                out
            }
            CastKind::PointerCoercion(PointerCoercion::Unsize) => {
                // array to slice gets a window; everything else keeps its pointer
                let fp = pointee(from);
                let tp = pointee(to);
                if let (Some(f), Some(t)) = (fp, tp) {
                    if let (Some(RigidTy::Array(..)), Some(RigidTy::Slice(_))) = (rigid(f), rigid(t)) {
                        if let Some(p) = deref(&v) {
                            return self
                                .ptr_len(st, &p)
                                .into_iter()
                                .map(|(s, n)| {
                                    let mut q = p.clone();
                                    q.meta = Some((Lin::k(0), n));
                                    (s, V::Ref(q))
                                })
                                .collect();
                        }
                    }
                }
                vec![(st, v)]
            }
            CastKind::PointerCoercion(_) | CastKind::PtrToPtr | CastKind::Transmute | CastKind::BoxDerefTransmute | CastKind::Subtype | CastKind::FnPtrToPtr => {
                // Option<NonZero<_>> is the number itself
                if let (V::Int(l), true) = (&v, adt_info_is_option(to)) {
                    let mut out = vec![];
                    let mut z = st.clone();
                    if z.assume(&Con::eq(l.clone())) {
                        out.push((z, none()));
                    }
                    let mut nz = st;
                    if nz.assume(&Con::ne(l.clone())) {
                        out.push((nz, some(v.clone())));
                    }
                    return out;
                }
                // char <-> u32 transmutes keep their value; pointer newtypes keep their pointer
                match (&v, int_bounds(to)) {
                    (V::Int(l), Some((lo, hi))) => {
                        let (a, b) = st.cs.interval(l);
                        let okl = lo.map_or(true, |x| a.map_or(false, |a| a >= x));
                        let okh = hi.map_or(true, |x| b.map_or(false, |b| b <= x));
                        if okl && okh {
                            vec![(st, v)]
                        } else {
                            vec![(st, fresh_val(to, "transmute", true))]
                        }
                    }
                    (V::Ref(_), _) | (V::Opq(_), _) => vec![(st, v)],
                    (V::Agg(a), None) => {
                        // newtype unwrapping
                        if pointee(to).is_some() {
                            let mut x = V::Agg(a.clone());
                            loop {
                                match &x {
                                    V::Agg(a) if !a.is_empty() => x = a[0].clone(),
                                    _ => break,
                                }
                            }
                            if matches!(x, V::Ref(_) | V::Opq(_)) {
                                return vec![(st, x)];
                            }
                        }
                        vec![(st, v)]
                    }
                    _ => vec![(st, v)],
                }
            }
            _ => vec![(st, fresh_val(to, "cast", true))],
        }
    }
    pub fn discr(&mut self, st: State, v: &V, ty: Option<Ty>) -> Out<V> {
        match v {
            V::Enum(d, _) => {
                let d = st.cs.norm(d);
                let info = ty.and_then(adt_info);
                let Some(info) = info else { return vec![(st, V::Int(d))] };
                if info.discr.is_empty() {
                    return vec![(st, V::Int(d))];
                }
                if let Some(k) = d.is_const() {
                    return vec![(st, kint(info.discr.get(k as usize).cloned().unwrap_or(k)))];
                }
                let off = info.discr[0];
                if info.discr.iter().enumerate().all(|(i, x)| *x == i as i128 + off) {
                    return vec![(st, V::Int(d.addk(off)))];
                }
                let mut out = vec![];
                for (i, x) in info.discr.iter().enumerate() {
                    let mut s = st.clone();
                    if s.assume(&Con::eq(d.addk(-(i as i128)))) {
                        out.push((s, kint(*x)));
                    }
                }
                out
            }
            V::Undef => vec![(st, V::Top)],
            _ => vec![(st, V::Top)],
        }
    }
    pub fn fork_pred(&mut self, st: State, c: &Con) -> (Option<State>, Option<State>) {
        let mut a = st.clone();
        let mut b = st;
        let x = a.assume(c);
        let y = b.assume(&c.negate());
        (if x { Some(a) } else { None }, if y { Some(b) } else { None })
    }
    /// case split on a boolean value
    pub fn fork_bool(&mut self, st: State, v: &V) -> (Option<State>, Option<State>) {
        match v {
            V::Int(l) => {
                let l = st.cs.norm(l);
                match l.is_const() {
                    Some(0) => (None, Some(st)),
                    Some(_) => (Some(st), None),
                    None => {
                        let t = lin_taint(&l);
                        let (a, b) = self.fork_pred(st, &Con::eq(l.addk(-1)));
                        taint_both(a, b, t)
                    }
                }
            }
            V::Pred(c) => {
                let t = lin_taint(&c.l);
                let (a, b) = self.fork_pred(st, c);
                taint_both(a, b, t)
            }
            _ => {
                let mut a = st.clone();
                let mut b = st;
                a.taint = true;
                b.taint = true;
                (Some(a), Some(b))
            }
        }
    }
    pub fn binop(&mut self, st: State, op: BinOp, x: &V, y: &V, ty: Ty, checked: bool) -> Out<V> {
        use BinOp::*;
        // booleans given as predicates
        let conv = |v: &V| -> Option<Lin> {
            match v {
                V::Int(l) => Some(l.clone()),
                _ => None,
            }
        };
        if matches!(x, V::Pred(_)) || matches!(y, V::Pred(_)) {
            // materialise by case analysis
            let mut out = vec![];
            if let V::Pred(_) = x {
                let (a, b) = self.fork_bool(st, x);
                for (s, k) in [(a, 1), (b, 0)] {
                    if let Some(s) = s {
                        out.extend(self.binop(s, op, &kint(k), y, ty, checked));
                    }
                }
            } else {
                // logical connectives short-cut on constants
                let (a, b) = self.fork_bool(st, y);
                for (s, k) in [(a, 1), (b, 0)] {
                    if let Some(s) = s {
                        out.extend(self.binop(s, op, x, &kint(k), ty, checked));
                    }
                }
            }
            return out;
        }
        let (Some(a), Some(b)) = (conv(x), conv(y)) else {
            // pointers
            let bool_r = matches!(op, Eq | Ne | Lt | Le | Gt | Ge);
            let v = if bool_r {
                if x == y && matches!(op, Eq | Le | Ge) && !matches!(x, V::Top | V::Undef) {
                    vbool(true)
                } else {
                    isym(fresh(Some(0), Some(1), true, "ptrcmp"))
                }
            } else if matches!(op, Offset) {
                V::Top
            } else {
                fresh_val(ty, "arith", true)
            };
            return vec![(st, if checked { agg(vec![v, vbool(false)]) } else { v })];
        };
        let a = st.cs.norm(&a);
        let b = st.cs.norm(&b);
        let taint = lin_taint(&a) || lin_taint(&b);
        let cmp = match op {
            Eq => Some(Con::eq2(&a, &b)),
            Ne => Some(Con::ne(a.sub(&b))),
            Lt => Some(Con::lt2(&a, &b)),
            Le => Some(Con::le2(&a, &b)),
            Gt => Some(Con::lt2(&b, &a)),
            Ge => Some(Con::le2(&b, &a)),
            _ => None,
        };
        // wide integers are unbounded, so none is the smallest one (the check before a negation)
        if op == Eq && is_wide(ty) && (b.is_const() == Some(i64::MIN as i128) || b.is_const() == Some(i128::MIN)) {
            return vec![(st, vbool(false))];
        }
        if let Some(c) = cmp {
            let v = match c.triv() {
                Some(t) => vbool(t),
                None => {
                    if st.cs.entails(&c) {
                        vbool(true)
                    } else if st.cs.entails(&c.negate()) {
                        vbool(false)
                    } else {
                        V::Pred(c)
                    }
                }
            };
            return vec![(st, v)];
        }
        let is_bool = matches!(rigid(ty), Some(RigidTy::Bool));
        let (lo, hi) = int_bounds(ty).unwrap_or((None, None));
        let mut st = st;
        let res: Lin = match op {
            Add | AddUnchecked => a.add(&b),
            Sub | SubUnchecked => a.sub(&b),
            Mul | MulUnchecked => match (a.is_const(), b.is_const()) {
                (Some(k), _) => b.mulk(k),
                (_, Some(k)) => a.mulk(k),
                _ => {
                    let (al, _) = st.cs.interval(&a);
                    let (bl, _) = st.cs.interval(&b);
                    let nn = al.map_or(false, |x| x >= 0) && bl.map_or(false, |x| x >= 0);
                    // a quotient times its divisor is known up to the remainder
                    match quot_mul(&a, &b).or_else(|| quot_mul(&b, &a)) {
                        Some(l) => l,
                        // beyond linear arithmetic: nothing that depends on it is ever reported
                        None => Lin::s(fresh(if nn { Some(0) } else { None }, None, true, "mul")),
                    }
                }
            },
            Div | Rem => {
                let nn = st.cs.interval(&a).0.map_or(false, |x| x >= 0);
                match b.is_const() {
                    Some(k) if k > 0 && nn => {
                        if let Some(ak) = a.is_const() {
                            Lin::k(if op == Div { ak / k } else { ak % k })
                        } else {
                            let (q, new) = memo_sym(format!("div {:?} {}", a, k), Some(0), None, taint, "q");
                            let _ = new;
                            let q = Lin::s(q);
                            let r = a.sub(&q.mulk(k));
                            st.assume(&Con::ge(r.clone()));
                            st.assume(&Con::ge(r.neg().addk(k - 1)));
                            if op == Div {
                                q
                            } else {
                                r
                            }
                        }
                    }
                    _ => {
                        let bn = st.cs.interval(&b).0.map_or(false, |x| x >= 1) || st.cs.entails(&Con::ge(b.addk(-1)));
                        if nn && bn {
                            let (qs, _) = memo_sym(format!("div {:?} {:?}", a, b), Some(0), None, taint, "quot");
                            let (ms, _) = memo_sym(format!("divmul {:?} {:?}", a, b), Some(0), None, taint, "quotmul");
                            QUOT.with(|m| m.borrow_mut().insert(qs, (b.clone(), ms)));
                            let (q, m) = (Lin::s(qs), Lin::s(ms));
                            st.assume(&Con::le2(&q, &a));
                            st.assume(&Con::le2(&q, &m));
                            st.assume(&Con::le2(&m, &a));
                            st.assume(&Con::lt2(&a.sub(&b), &m));
                            if st.cs.entails(&Con::le2(&b, &a)) {
                                st.assume(&Con::ge(q.addk(-1)));
                                st.assume(&Con::le2(&b, &m));
                            }
                            if op == Rem {
                                a.sub(&m)
                            } else {
                                q
                            }
                        } else {
                            Lin::s(fresh(lo, hi, taint, "quot"))
                        }
                    }
                }
            }
            BitAnd | BitOr | BitXor if is_bool => {
                match (op, a.is_const(), b.is_const()) {
                    (BitAnd, Some(0), _) | (BitAnd, _, Some(0)) => Lin::k(0),
                    (BitAnd, Some(_), _) => b,
                    (BitAnd, _, Some(_)) => a,
                    (BitOr, Some(0), _) => b,
                    (BitOr, _, Some(0)) => a,
                    (BitOr, Some(_), _) | (BitOr, _, Some(_)) => Lin::k(1),
                    (BitXor, Some(0), _) => b,
                    (BitXor, _, Some(0)) => a,
                    (BitXor, Some(_), _) => b.neg().addk(1),
                    (BitXor, _, Some(_)) => a.neg().addk(1),
                    _ => {
                        // case split on the first operand
                        let (p, q) = self.fork_bool(st, &V::Int(a));
                        let mut out = vec![];
                        for (s, k) in [(p, 1), (q, 0)] {
                            if let Some(s) = s {
                                out.extend(self.binop(s, op, &kint(k), &V::Int(b.clone()), ty, checked));
                            }
                        }
                        return out;
                    }
                }
            }
            Cmp => {
                // Ordering: Less=0, Equal=1, Greater=2
                let mut out = vec![];
                for (c, k) in [(Con::lt2(&a, &b), 0), (Con::eq2(&a, &b), 1), (Con::lt2(&b, &a), 2)] {
                    let mut s = st.clone();
                    if s.assume(&c) {
                        out.push((s, variant(3, k, vec![])));
                    }
                }
                return out;
            }
            _ => match (a.is_const(), b.is_const()) {
                (Some(p), Some(q)) => Lin::k(match op {
                    BitAnd => p & q,
                    BitOr => p | q,
                    BitXor => p ^ q,
                    Shl | ShlUnchecked => (p << (q & 63)) & hi.unwrap_or(u64::MAX as i128),
                    Shr | ShrUnchecked => p >> (q & 63),
                    _ => 0,
                }),
                _ => {
                    let mut h2 = hi;
                    if op == BitAnd {
                        for k in [a.is_const(), b.is_const()].into_iter().flatten() {
                            if k >= 0 {
                                h2 = Some(h2.map_or(k, |h| h.min(k)));
                            }
                        }
                    }
                    Lin::s(fresh(lo.or(if is_unsigned(ty) { Some(0) } else { None }), h2, taint, "bits"))
                }
            },
        };
        let arith = matches!(op, Add | Sub | Mul);
        if !arith {
            let v = V::Int(res);
            return vec![(st, if checked { agg(vec![v, vbool(false)]) } else { v })];
        }
        // overflow condition
        let (rl, rh) = st.cs.interval(&res);
        let mut under = lo.map(|l| Con::lt2(&res, &Lin::k(l)));
        let mut over = hi.map(|h| Con::lt2(&Lin::k(h), &res));
        if let (Some(l), Some(r)) = (lo, rl) {
            if r >= l {
                under = None;
            }
        }
        if let (Some(h), Some(r)) = (hi, rh) {
            if r <= h {
                over = None;
            }
        }
        if let Some(u) = &under {
            if st.cs.entails(&u.negate()) {
                under = None;
            }
        }
        if let Some(u) = &over {
            if st.cs.entails(&u.negate()) {
                over = None;
            }
        }
        if !checked {
            // wrapping arithmetic outside overflow checks
            if under.is_none() && over.is_none() {
                return vec![(st, V::Int(res))];
            }
            let mut out = vec![];
            let mut s1 = st.clone();
            let mut ok = true;
            for u in [&under, &over].into_iter().flatten() {
                ok &= s1.assume(&u.negate());
            }
            if ok {
                out.push((s1, V::Int(res)));
            }
            for u in [under, over].into_iter().flatten() {
                let mut s2 = st.clone();
                if s2.assume(&u) {
                    out.push((s2, fresh_val(ty, "wrapped", taint)));
                }
            }
            return out;
        }
        match (under, over) {
            (None, None) => vec![(st, agg(vec![V::Int(res), vbool(false)]))],
            (Some(u), None) | (None, Some(u)) => vec![(st, agg(vec![V::Int(res), V::Pred(u)]))],
            (Some(u), Some(o)) => {
                let mut out = vec![];
                let mut s1 = st.clone();
                if s1.assume(&u) {
                    out.push((s1, agg(vec![V::Int(res.clone()), vbool(true)])));
                }
                if st.assume(&u.negate()) {
                    out.push((st, agg(vec![V::Int(res), V::Pred(o)])));
                }
                out
            }
        }
    }
    // ------------------------------------------------------------ terminators
    fn terminator(&mut self, bi: &Rc<BodyInfo>, st: State, t: &Terminator, pend: &mut Pend, rets: &mut Vec<State>, depth: usize) {
        match &t.kind {
            TerminatorKind::Goto { target } => pend[*target].push(st),
            TerminatorKind::Return => rets.push(st),
            TerminatorKind::Unreachable | TerminatorKind::Resume | TerminatorKind::Abort => {}
            TerminatorKind::Drop { place, target, .. } => {
                let v = self.drop_value(bi, st, place, depth);
                pend[*target].extend(v);
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                for (s, v) in self.operand(bi, st, discr, depth) {
                    match &v {
                        V::Int(l) => {
                            let l = s.cs.norm(l);
                            if let Some(k) = l.is_const() {
                                let mut done = false;
                                for (val, tgt) in targets.branches() {
                                    if val as i128 == k || (k < 0 && val as i128 == k & mask_for(val)) {
                                        pend[tgt].push(s.clone());
                                        done = true;
                                        break;
                                    }
                                }
                                if !done {
                                    pend[targets.otherwise()].push(s);
                                }
                                continue;
                            }
                            let taint = lin_taint(&l);
                            let mut rest = s;
                            rest.taint |= taint;
                            let mut alive = true;
                            for (val, tgt) in targets.branches() {
                                if !alive {
                                    break;
                                }
                                let k = unsign(val, &l, &rest);
                                let mut s2 = rest.clone();
                                if s2.assume(&Con::eq(l.addk(-k))) {
                                    pend[tgt].push(s2);
                                }
                                alive = rest.assume(&Con::ne(l.addk(-k)));
                            }
                            if alive {
                                pend[targets.otherwise()].push(rest);
                            }
                        }
                        V::Pred(c) => {
                            let taint = lin_taint(&c.l);
                            let mut t_true = targets.otherwise();
                            let mut t_false = targets.otherwise();
                            for (val, tgt) in targets.branches() {
                                if val == 0 {
                                    t_false = tgt
                                } else {
                                    t_true = tgt
                                }
                            }
                            let (a, b) = self.fork_pred(s, c);
                            if let Some(mut a) = a {
                                a.taint |= taint;
                                pend[t_true].push(a);
                            }
                            if let Some(mut b) = b {
                                b.taint |= taint;
                                pend[t_false].push(b);
                            }
                        }
                        _ => {
                            *self.stats.taint_src.entry(format!("branch on unknown value in {}", bi.name)).or_default() += 1;
                            let mut s = s;
                            s.taint = true;
                            let mut seen = BTreeSet::new();
                            for tgt in targets.all_targets() {
                                if seen.insert(tgt) && !matches!(bi.body.blocks[tgt].terminator.kind, TerminatorKind::Unreachable) {
                                    pend[tgt].push(s.clone());
                                }
                            }
                        }
                    }
                }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                self.set_span(t);
                for (mut s, v) in self.operand(bi, st, cond, depth) {
                    let what = match msg {
                        AssertMessage::BoundsCheck { .. } => "index out of bounds".to_string(),
                        // checks the compiler adds for unsafe code and raw pointers: safe references meet them
                        AssertMessage::MisalignedPointerDereference { .. } | AssertMessage::NullPointerDereference => {
                            pend[*target].push(s);
                            continue;
                        }
                        m => m.description().map(|s| s.to_string()).unwrap_or_else(|_| "assertion".into()),
                    };
                    let c = match &v {
                        V::Int(l) => {
                            let e = if *expected { 1 } else { 0 };
                            Con::eq(l.addk(-e))
                        }
                        V::Pred(c) => {
                            if *expected {
                                c.clone()
                            } else {
                                c.negate()
                            }
                        }
                        _ => {
                            s.taint = true;
                            pend[*target].push(s);
                            continue;
                        }
                    };
                    if self.require(&mut s, "C01", &c, &what) {
                        pend[*target].push(s);
                    }
                }
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                self.set_span(t);
                let fty = func.ty(bi.body.locals()).unwrap();
                let mut cur: Out<Vec<V>> = vec![(st, vec![])];
                for o in args {
                    let mut n = vec![];
                    for (s, vs) in cur {
                        for (s2, v) in self.operand(bi, s, o, depth) {
                            let mut vs = vs.clone();
                            vs.push(v);
                            n.push((s2, vs));
                        }
                    }
                    cur = n;
                }
                let rty = destination.ty(bi.body.locals()).unwrap();
                let atys: Vec<Ty> = args.iter().map(|o| o.ty(bi.body.locals()).unwrap()).collect();
                for (s, vs) in cur {
                    let r = match rigid(fty) {
                        Some(RigidTy::FnDef(def, ga)) => self.call_def(s, def, &ga, vs, &atys, rty),
                        _ => {
                            // function pointers
                            self.unknown_call(s, "function pointer", vs, &atys, rty)
                        }
                    };
                    let Some(tg) = target else { continue };
                    for (mut s2, v) in r {
                        if s2.cs.bot {
                            continue;
                        }
                        if destination.projection.is_empty() {
                            s2.set_base(Base::Local(depth as u32, destination.local as u32), v);
                            pend[*tg].push(s2);
                        } else {
                            let x = self.assign(bi, s2, destination, v, depth);
                            pend[*tg].extend(x);
                        }
                    }
                }
            }
            TerminatorKind::InlineAsm { .. } => {}
        }
    }
    fn set_span(&mut self, t: &Terminator) {
        let l = t.source_info.span.get_lines();
        let f = t.source_info.span.get_filename();
        if let Some(s) = self.spans.last_mut() {
            let f = f.to_string();
            let f = f.rsplit('/').next().unwrap_or("").to_string();
            *s = format!("{}:{}", f, l.start_line);
        }
    }
    fn drop_value(&mut self, bi: &Rc<BodyInfo>, st: State, place: &Place, depth: usize) -> Vec<State> {
        // values with user-visible drop effects
        let ty = place.ty(bi.body.locals()).ok();
        let mut st = st;
        if let Some(ty) = ty {
            if crate::prims::drop_matters(ty) {
                let mut out = vec![];
                for (s, p) in self.place_ptr(bi, st, place, depth) {
                    out.extend(self.drop_ty(s, V::Ref(p), ty));
                }
                let mut res = vec![];
                for mut s in out {
                    if place.projection.is_empty() {
                        s.set_base(Base::Local(depth as u32, place.local as u32), V::Undef);
                    }
                    res.push(s);
                }
                return res;
            }
        }
        if place.projection.is_empty() {
            st.set_base(Base::Local(depth as u32, place.local as u32), V::Undef);
        }
        vec![st]
    }
    /// call a function item
    pub fn call_def(&mut self, st: State, def: FnDef, ga: &GenericArgs, args: Vec<V>, atys: &[Ty], rty: Ty) -> Out<V> {
        if self.timed_out {
            return vec![];
        }
        let name = def.name().to_string();
        let st = match self.prim(st, &name, ga, &args, atys, rty) {
            Ok(r) => return r,
            Err(s) => s,
        };
        let inst = match Instance::resolve(def, ga) {
            Ok(i) => i,
            Err(_) => return self.unknown_call(st, &name, args, atys, rty),
        };
        self.call_inst(st, inst, Some((def, ga)), args, atys, rty)
    }
    pub fn call_inst(&mut self, mut st: State, inst: Instance, orig: Option<(FnDef, &GenericArgs)>, mut args: Vec<V>, atys: &[Ty], rty: Ty) -> Out<V> {
        let iname = inst.def.name().to_string();
        if let InstanceKind::Virtual { .. } = inst.kind {
            return self.dyn_call(st, &iname, args, atys, rty);
        }
        if orig.map_or(true, |o| o.0.name().to_string() != iname) {
            let iga = inst.args();
            st = match self.prim(st, &iname, &iga, &args, atys, rty) {
                Ok(r) => return r,
                Err(s) => s,
            };
        }
        if let Some(n) = inst.intrinsic_name() {
            let n = format!("intrinsic::{}", n);
            let iga = inst.args();
            let st = match self.prim(st, &n, &iga, &args, atys, rty) {
                Ok(r) => return r,
                Err(s) => s,
            };
            return self.unknown_call(st, &n, args, atys, rty);
        }
        if !self.interpretable(&iname) {
            return self.unknown_call(st, &iname, args, atys, rty);
        }
        let Some(bi) = self.body(inst) else {
            return self.unknown_call(st, &iname, args, atys, rty);
        };
        // recursion
        if self.stack.iter().filter(|x| x.0 == inst).count() >= 1 && bi.is_liner {
            return self.recursive_call(st, inst, &bi, args, atys, rty);
        }
        let st = match self.contract(st, &inst, &bi, &args, atys, rty) {
            Ok(r) => return r,
            Err(s) => s,
        };
        // rust-call: closures take their arguments spread out
        let na = bi.body.arg_locals().len();
        if is_closure_inst(&inst) && bi.body.spread_arg().is_none() {
            if args.len() == 2 && na != 2 || (args.len() == 2 && matches!(atys.get(1).and_then(|t| rigid(*t)), Some(RigidTy::Tuple(_)))) {
                let tup = args.pop().unwrap();
                match tup {
                    V::Agg(a) => args.extend(a.iter().cloned()),
                    _ => {
                        for l in &bi.body.arg_locals()[1..] {
                            args.push(fresh_val(l.ty, "clarg", true));
                        }
                    }
                }
            }
        }
        self.run_body(inst, bi, args, st)
    }
    /// havoc everything reachable through mutable references in the arguments
    pub fn unknown_call(&mut self, st: State, name: &str, args: Vec<V>, atys: &[Ty], rty: Ty) -> Out<V> {
        if matches!(rigid(rty), Some(RigidTy::Never)) {
            if name.contains("panic") || name.contains("unreachable") || name.contains("fail") || name.contains("handle_error") {
                let n = name.rsplit("::").next().unwrap_or(name).to_string();
                self.must_not_reach(&st, "C01", &format!("call to {}", n));
            }
            return vec![];
        }
        if self.quiet == 0 {
            *self.stats.unmodelled.entry(name.to_string()).or_default() += 1;
        }
        let mut st = st;
        for (a, t) in args.iter().zip(atys.iter()) {
            let mutable = matches!(rigid(*t), Some(RigidTy::Ref(_, _, Mutability::Mut)) | Some(RigidTy::RawPtr(_, Mutability::Mut)));
            if mutable {
                if let (Some(p), Some(pt)) = (deref(a), pointee(*t)) {
                    if ptr_valid(&p) {
                        if self.trace > 1 {
                            eprintln!("havoc {} via {}", show_ptr(&p), name);
                        }
                        let nv = if is_unsized_seq(pt) { None } else { Some(fresh_val(pt, "havoc", true)) };
                        if let Some(nv) = nv {
                            let r = st.store(&p, nv);
                            match r.into_iter().next() {
                                Some(s) => st = s,
                                None => return vec![],
                            }
                        }
                    }
                }
            }
        }
        vec![(st, fresh_val(rty, short_name(name), true))]
    }
}
pub fn short_name(n: &str) -> &str {
    n.rsplit("::").next().unwrap_or(n)
}
fn taint_both(a: Option<State>, b: Option<State>, t: bool) -> (Option<State>, Option<State>) {
    if !t {
        return (a, b);
    }
    (
        a.map(|mut s| {
            s.taint = true;
            s
        }),
        b.map(|mut s| {
            s.taint = true;
            s
        }),
    )
}
fn mask_for(val: u128) -> i128 {
    if val <= u8::MAX as u128 {
        0xff
    } else if val <= u16::MAX as u128 {
        0xffff
    } else if val <= u32::MAX as u128 {
        0xffff_ffff
    } else {
        u64::MAX as i128
    }
}
/// switch values are given as raw bits; small negative discriminants (e.g. Ordering) come back signed
fn unsign(val: u128, l: &Lin, st: &State) -> i128 {
    let v = val as i128;
    if let (Some(lo), _) = st.cs.interval(l) {
        if lo < 0 {
            for bits in [8, 16, 32, 64] {
                let m = 1i128 << bits;
                if v < m && v >= m / 2 {
                    return v - m;
                }
            }
        }
    }
    v
}
pub fn is_closure_inst(i: &Instance) -> bool {
    let n = i.def.name().to_string();
    n.ends_with('}') && n.rsplit("::").next().map_or(false, |x| x.starts_with("{closure"))
}
pub fn t_char() -> Ty {
    Ty::from_rigid_kind(RigidTy::Char)
}
pub fn lit_seq(t: Ty, v: Vec<i128>) -> V {
    if v.is_empty() {
        return seq(vec![]);
    }
    let n = v.len() as i128;
    if n <= 1 {
        return seq(v.into_iter().map(|k| Seg::El(kint(k))).collect());
    }
    let c = lit_content(t, v);
    seq(vec![Seg::Sub(c, Lin::k(0), Lin::k(n))])
}
pub fn deref(v: &V) -> Option<Ptr> {
    match v {
        V::Ref(p) => Some(p.clone()),
        V::Opq(o) => match expand(*o) {
            Some(V::Ref(p)) => Some(p),
            _ => None,
        },
        V::Agg(a) if a.len() >= 1 => deref(&a[0]),
        _ => None,
    }
}
pub fn invalid_ptr() -> Ptr {
    Ptr::new(Base::Heap(u32::MAX))
}
pub fn ptr_valid(p: &Ptr) -> bool {
    p.base != Base::Heap(u32::MAX)
}
fn scalar_size(s: &crate::Scalar) -> usize {
    let p = match s {
        crate::Scalar::Initialized { value, .. } => value,
        crate::Scalar::Union { value } => value,
    };
    match p {
        crate::Primitive::Int { length, .. } => length.bits() / 8,
        crate::Primitive::Pointer(_) => 8,
        crate::Primitive::Float { .. } => 8,
    }
}
pub trait ToIdx {
    fn to_index_(&self) -> usize;
}
impl ToIdx for VariantIdx {
    fn to_index_(&self) -> usize {
        { let d = format!("{:?}", self); let t: String = d.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect(); t.parse().unwrap() }
    }
}
fn mark(l: &[W], m: &mut Vec<bool>) {
    for w in l {
        match w {
            W::B(b) => m[*b] = true,
            W::C(h, b) => {
                m[*h] = true;
                mark(b, m)
            }
        }
    }
}
pub fn succs(t: &Terminator) -> Vec<usize> {
    match &t.kind {
        TerminatorKind::Goto { target } => vec![*target],
        TerminatorKind::SwitchInt { targets, .. } => targets.all_targets(),
        TerminatorKind::Drop { target, .. } => vec![*target],
        TerminatorKind::Call { target, .. } => target.iter().cloned().collect(),
        TerminatorKind::Assert { target, .. } => vec![*target],
        TerminatorKind::InlineAsm { destination, .. } => destination.iter().cloned().collect(),
        _ => vec![],
    }
}
thread_local! { static ADDR: std::cell::RefCell<HashMap<usize, Rc<Vec<bool>>>> = Default::default(); }
fn bi_addr_taken(bi: &Rc<BodyInfo>, l: usize) -> bool {
    let k = Rc::as_ptr(bi) as usize;
    let v = ADDR.with(|a| a.borrow().get(&k).cloned());
    let v = match v {
        Some(v) => v,
        None => {
            let v = Rc::new(addr_taken(&bi.body));
            ADDR.with(|a| a.borrow_mut().insert(k, v.clone()));
            v
        }
    };
    v[l]
}
fn addr_taken(b: &Body) -> Vec<bool> {
    let mut at = vec![false; b.locals().len()];
    for blk in &b.blocks {
        for s in &blk.statements {
            if let StatementKind::Assign(_, Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p)) = &s.kind {
                if !p.projection.iter().any(|e| matches!(e, ProjectionElem::Deref)) {
                    at[p.local] = true;
                }
            }
        }
    }
    at
}
fn liveness(b: &Body) -> Vec<Vec<bool>> {
    let n = b.locals().len();
    let at = addr_taken(b);
    let nb = b.blocks.len();
    // gen/kill per block, backwards
    let mut live_in = vec![vec![false; n]; nb];
    fn use_place(p: &Place, l: &mut Vec<bool>) {
        l[p.local] = true;
        for e in &p.projection {
            if let ProjectionElem::Index(i) = e {
                l[*i] = true;
            }
        }
    }
    fn use_op(o: &Operand, l: &mut Vec<bool>) {
        match o {
            Operand::Copy(p) | Operand::Move(p) => use_place(p, l),
            _ => {}
        }
    }
    fn def_place(p: &Place, l: &mut Vec<bool>) {
        if p.projection.is_empty() {
            l[p.local] = false;
        } else {
            use_place(p, l)
        }
    }
    let mut changed = true;
    while changed {
        changed = false;
        for bb in (0..nb).rev() {
            let blk = &b.blocks[bb];
            let mut l = vec![false; n];
            for s in succs(&blk.terminator) {
                for i in 0..n {
                    if live_in[s][i] {
                        l[i] = true;
                    }
                }
            }
            match &blk.terminator.kind {
                TerminatorKind::Return => l[0] = true,
                TerminatorKind::SwitchInt { discr, .. } => use_op(discr, &mut l),
                TerminatorKind::Drop { place, .. } => use_place(place, &mut l),
                TerminatorKind::Call { func, args, destination, .. } => {
                    def_place(destination, &mut l);
                    use_op(func, &mut l);
                    for a in args {
                        use_op(a, &mut l);
                    }
                }
                TerminatorKind::Assert { cond, .. } => use_op(cond, &mut l),
                _ => {}
            }
            for s in blk.statements.iter().rev() {
                match &s.kind {
                    StatementKind::Assign(p, rv) => {
                        def_place(p, &mut l);
                        match rv {
                            Rvalue::Use(o, _) | Rvalue::Repeat(o, _) | Rvalue::Cast(_, o, _) | Rvalue::UnaryOp(_, o) => use_op(o, &mut l),
                            Rvalue::BinaryOp(_, x, y) | Rvalue::CheckedBinaryOp(_, x, y) => {
                                use_op(x, &mut l);
                                use_op(y, &mut l);
                            }
                            Rvalue::Aggregate(_, os) => os.iter().for_each(|o| use_op(o, &mut l)),
                            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Len(p) | Rvalue::Discriminant(p) | Rvalue::CopyForDeref(p) | Rvalue::Reborrow(_, _, p) => use_place(p, &mut l),
                            Rvalue::ThreadLocalRef(_) => {}
                        }
                    }
                    StatementKind::SetDiscriminant { place, .. } => use_place(place, &mut l),
                    StatementKind::StorageDead(x) | StatementKind::StorageLive(x) => l[*x] = false,
                    _ => {}
                }
            }
            if l != live_in[bb] {
                live_in[bb] = l;
                changed = true;
            }
        }
    }
    for v in live_in.iter_mut() {
        for i in 0..n {
            if at[i] {
                v[i] = true;
            }
        }
    }
    live_in
}
/// weak topological order (Bourdoncle)
fn build_wto(b: &Body) -> Vec<W> {
    struct S<'a> {
        b: &'a Body,
        dfn: Vec<usize>,
        num: usize,
        stack: Vec<usize>,
    }
    const INF: usize = usize::MAX;
    impl<'a> S<'a> {
        fn visit(&mut self, v: usize, out: &mut Vec<W>) -> usize {
            self.stack.push(v);
            self.num += 1;
            self.dfn[v] = self.num;
            let mut head = self.dfn[v];
            let mut lp = false;
            let ss = succs(&self.b.blocks[v].terminator);
            for s in ss {
                let m = if self.dfn[s] == 0 { self.visit(s, out) } else { self.dfn[s] };
                if m <= head {
                    head = m;
                    lp = true;
                }
            }
            if head == self.dfn[v] {
                self.dfn[v] = INF;
                let mut e = self.stack.pop().unwrap();
                if lp {
                    while e != v {
                        self.dfn[e] = 0;
                        e = self.stack.pop().unwrap();
                    }
                    let c = self.component(v);
                    out.push(c);
                } else {
                    out.push(W::B(v));
                }
            }
            head
        }
        fn component(&mut self, v: usize) -> W {
            let mut out = vec![];
            let ss = succs(&self.b.blocks[v].terminator);
            for s in ss {
                if self.dfn[s] == 0 {
                    self.visit(s, &mut out);
                }
            }
            out.reverse();
            W::C(v, out)
        }
    }
    let mut s = S { b, dfn: vec![0; b.blocks.len()], num: 0, stack: vec![] };
    let mut out = vec![];
    s.visit(0, &mut out);
    out.reverse();
    out
}
pub fn show_state(s: &State) -> String {
    let mut o = String::new();
    for (d, f) in s.frames.iter().enumerate() {
        for (i, v) in f.iter().enumerate() {
            if !matches!(v, V::Undef) {
                o += &format!("\n   L{}.{} = {}", d, i, show(v));
            }
        }
    }
    for (h, v) in s.heap.iter() {
        o += &format!("\n   H{} = {}", h, show(v));
    }
    for (i, v) in s.ghost.iter().enumerate() {
        o += &format!("\n   G{} = {}", i, show(v));
    }
    o += &format!("\n   | {}", s.cs.show());
    for (c, e) in s.econs.iter() {
        o += &format!("\n   each {}: {}", c, e.iter().map(|k| k.show()).collect::<Vec<_>>().join(" & "));
    }
    if s.taint {
        o += "\n   TAINTED"
    }
    o
}
pub fn default_lim() -> [usize; 3] {
    let mut l = [6, 12, 30];
    if let Ok(s) = std::env::var("LL_LIM") {
        for (i, x) in s.split(',').take(3).enumerate() {
            l[i] = x.parse().unwrap_or(l[i]);
        }
    }
    l
}

/// debugging aid: is the suggestion at least as long as the new line?
fn watch(s: &State) -> bool {
    if let Some(V::Agg(f)) = s.heap.get(&0) {
        if f.len() > 16 {
            if let (V::Agg(x), V::Enum(d, p)) = (&f[3], &f[16]) {
                if let V::Seq(y) = &x[0] {
                    let Some(Some(pl)) = p.get(1) else { return true };
                    let V::Agg(bf) = &pl[0] else { return true };
                    let V::Seq(z) = &bf[0] else { return true };
                    let mut cs = s.cs.clone();
                    cs.add(&Con::eq(d.addk(-1)));
                    return cs.bot || cs.entails(&Con::ge(seq_len(z).sub(&seq_len(y))));
                }
            }
        }
    }
    true
}

thread_local! {
    /// quotient -> (divisor, quotient * divisor)
    static QUOT: std::cell::RefCell<std::collections::HashMap<Sym, (Lin, Sym)>> = Default::default();
}
fn quot_mul(a: &Lin, b: &Lin) -> Option<Lin> {
    QUOT.with(|m| {
        let m = m.borrow();
        let mut r = b.mulk(a.k);
        for &(s, c) in &a.t {
            let (d, p) = m.get(&s)?;
            if d != b {
                return None;
            }
            r = r.add(&Lin::s(*p).mulk(c));
        }
        Some(r)
    })
}

fn adt_info_is_option(t: Ty) -> bool {
    crate::prims::adt_name(t).ends_with("option::Option")
}

fn is_result(t: Ty) -> bool {
    matches!(t.kind(), TyKind::RigidTy(RigidTy::Adt(a, _)) if a.name().ends_with("result::Result"))
}
