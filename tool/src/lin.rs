//! Linear expressions over symbols and conjunctions of linear constraints (the relational
//! numeric domain). Entailment is decided over the rationals with integer tightening.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type Sym = u32;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Lin {
    pub t: Vec<(Sym, i128)>,
    pub k: i128,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Rel {
    Ge,
    Eq,
    Ne,
}

/// `l rel 0`
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Con {
    pub l: Lin,
    pub r: Rel,
}

#[derive(Clone, Debug)]
pub struct SymInfo {
    pub lo: Option<i128>,
    pub hi: Option<i128>,
    pub taint: bool,
    pub name: String,
}

thread_local! {
    pub static SYMS: RefCell<Vec<SymInfo>> = RefCell::new(Vec::new());
    pub static STATS: RefCell<[u64; 8]> = RefCell::new([0; 8]);
}

pub fn fresh(lo: Option<i128>, hi: Option<i128>, taint: bool, name: &str) -> Sym {
    SYMS.with(|s| {
        let mut s = s.borrow_mut();
        s.push(SymInfo { lo, hi, taint, name: name.to_string() });
        (s.len() - 1) as Sym
    })
}
pub fn sym_bounds(x: Sym) -> (Option<i128>, Option<i128>) {
    SYMS.with(|s| {
        let s = s.borrow();
        (s[x as usize].lo, s[x as usize].hi)
    })
}
pub fn sym_taint(x: Sym) -> bool {
    SYMS.with(|s| s.borrow()[x as usize].taint)
}
pub fn sym_name(x: Sym) -> String {
    SYMS.with(|s| s.borrow()[x as usize].name.clone())
}

impl Lin {
    pub fn k(k: i128) -> Lin {
        Lin { t: vec![], k }
    }
    pub fn s(s: Sym) -> Lin {
        Lin { t: vec![(s, 1)], k: 0 }
    }
    pub fn is_const(&self) -> Option<i128> {
        if self.t.is_empty() {
            Some(self.k)
        } else {
            None
        }
    }
    pub fn coef(&self, s: Sym) -> i128 {
        match self.t.binary_search_by_key(&s, |x| x.0) {
            Ok(i) => self.t[i].1,
            Err(_) => 0,
        }
    }
    pub fn comb(&self, a: i128, o: &Lin, b: i128) -> Lin {
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                if a != 0 {
                    t.push((self.t[i].0, self.t[i].1 * a));
                }
                i += 1;
            } else if i >= self.t.len() || o.t[j].0 < self.t[i].0 {
                if b != 0 {
                    t.push((o.t[j].0, o.t[j].1 * b));
                }
                j += 1;
            } else {
                let c = self.t[i].1 * a + o.t[j].1 * b;
                if c != 0 {
                    t.push((self.t[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        Lin { t, k: self.k.saturating_mul(a).saturating_add(o.k.saturating_mul(b)) }
    }
    pub fn add(&self, o: &Lin) -> Lin {
        self.comb(1, o, 1)
    }
    pub fn sub(&self, o: &Lin) -> Lin {
        self.comb(1, o, -1)
    }
    pub fn addk(&self, k: i128) -> Lin {
        Lin { t: self.t.clone(), k: self.k + k }
    }
    pub fn mulk(&self, k: i128) -> Lin {
        if k == 0 {
            return Lin::k(0);
        }
        Lin { t: self.t.iter().map(|(s, c)| (*s, c * k)).collect(), k: self.k * k }
    }
    pub fn neg(&self) -> Lin {
        self.mulk(-1)
    }
    /// replace symbol `x` by `e`
    pub fn subst(&self, x: Sym, e: &Lin) -> Lin {
        let c = self.coef(x);
        if c == 0 {
            return self.clone();
        }
        let mut base = self.clone();
        base.t.retain(|p| p.0 != x);
        base.comb(1, e, c)
    }
    pub fn subst_map(&self, f: &dyn Fn(Sym) -> Option<Lin>) -> Lin {
        let mut out = Lin::k(self.k);
        let mut any = false;
        for (s, _) in &self.t {
            if f(*s).is_some() {
                any = true;
                break;
            }
        }
        if !any {
            return self.clone();
        }
        for (s, c) in &self.t {
            match f(*s) {
                Some(e) => out = out.comb(1, &e, *c),
                None => out = out.comb(1, &Lin::s(*s), *c),
            }
        }
        out
    }
    /// `x + k` form
    pub fn as_sym_plus(&self) -> Option<(Sym, i128)> {
        if self.t.len() == 1 && self.t[0].1 == 1 {
            Some((self.t[0].0, self.k))
        } else {
            None
        }
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for (x, c) in &self.t {
            let n = format!("{}#{}", sym_name(*x), x);
            if *c == 1 {
                s += &format!("+{}", n);
            } else if *c == -1 {
                s += &format!("-{}", n);
            } else {
                s += &format!("{:+}*{}", c, n);
            }
        }
        if self.k != 0 || s.is_empty() {
            s += &format!("{:+}", self.k);
        }
        s
    }
}

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

impl Con {
    pub fn ge(l: Lin) -> Con {
        Con { l, r: Rel::Ge }.norm()
    }
    pub fn eq(l: Lin) -> Con {
        Con { l, r: Rel::Eq }.norm()
    }
    pub fn ne(l: Lin) -> Con {
        Con { l, r: Rel::Ne }.norm()
    }
    /// a <= b
    pub fn le2(a: &Lin, b: &Lin) -> Con {
        Con::ge(b.sub(a))
    }
    /// a < b
    pub fn lt2(a: &Lin, b: &Lin) -> Con {
        Con::ge(b.sub(a).addk(-1))
    }
    pub fn eq2(a: &Lin, b: &Lin) -> Con {
        Con::eq(a.sub(b))
    }
    pub fn norm(mut self) -> Con {
        let mut g = 0;
        for (_, c) in &self.l.t {
            g = gcd(g, *c);
        }
        if g > 1 {
            match self.r {
                Rel::Ge => {
                    for p in &mut self.l.t {
                        p.1 /= g;
                    }
                    self.l.k = self.l.k.div_euclid(g);
                }
                Rel::Eq | Rel::Ne => {
                    if self.l.k % g == 0 {
                        for p in &mut self.l.t {
                            p.1 /= g;
                        }
                        self.l.k /= g;
                    } else {
                        // never zero
                        let v = if self.r == Rel::Eq { -1 } else { 1 };
                        return Con { l: Lin::k(v), r: if self.r == Rel::Eq { Rel::Ge } else { Rel::Ge } };
                    }
                }
            }
        }
        if self.r != Rel::Ge {
            if let Some(p) = self.l.t.first() {
                if p.1 < 0 {
                    self.l = self.l.neg();
                }
            }
        }
        self
    }
    pub fn negate(&self) -> Con {
        match self.r {
            Rel::Ge => Con::ge(self.l.neg().addk(-1)),
            Rel::Eq => Con::ne(self.l.clone()),
            Rel::Ne => Con::eq(self.l.clone()),
        }
    }
    pub fn triv(&self) -> Option<bool> {
        self.l.is_const().map(|k| match self.r {
            Rel::Ge => k >= 0,
            Rel::Eq => k == 0,
            Rel::Ne => k != 0,
        })
    }
    pub fn subst(&self, x: Sym, e: &Lin) -> Con {
        if self.l.coef(x) == 0 {
            return self.clone();
        }
        Con { l: self.l.subst(x, e), r: self.r }.norm()
    }
    pub fn map(&self, f: &dyn Fn(Sym) -> Option<Lin>) -> Con {
        Con { l: self.l.subst_map(f), r: self.r }.norm()
    }
    pub fn show(&self) -> String {
        format!("{} {} 0", self.l.show(), match self.r { Rel::Ge => ">=", Rel::Eq => "==", Rel::Ne => "!=" })
    }
}

/// guard: (g == 0) implies c
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Guard {
    pub g: Lin,
    pub c: Con,
}

#[derive(Clone, Debug, Default)]
pub struct Cs {
    pub cons: Vec<Con>,
    pub subst: BTreeMap<Sym, Lin>,
    pub guards: Vec<Guard>,
    pub bot: bool,
}

impl Cs {
    pub fn norm(&self, l: &Lin) -> Lin {
        if self.subst.is_empty() || l.t.is_empty() {
            return l.clone();
        }
        l.subst_map(&|s| self.subst.get(&s).cloned())
    }
    pub fn normc(&self, c: &Con) -> Con {
        Con { l: self.norm(&c.l), r: c.r }.norm()
    }
    /// interval of a normalised expression from declared bounds and unary constraints
    fn unary(&self, x: Sym) -> (Option<i128>, Option<i128>) {
        let (mut lo, mut hi) = sym_bounds(x);
        for c in &self.cons {
            if c.l.t.len() == 1 && c.l.t[0].0 == x && c.r == Rel::Ge {
                let a = c.l.t[0].1;
                // a x + k >= 0
                if a > 0 {
                    let b = -(c.l.k.div_euclid(a));
                    lo = Some(lo.map_or(b, |v| v.max(b)));
                } else {
                    let b = c.l.k.div_euclid(-a);
                    hi = Some(hi.map_or(b, |v| v.min(b)));
                }
            }
        }
        (lo, hi)
    }
    pub fn interval(&self, l: &Lin) -> (Option<i128>, Option<i128>) {
        let l = self.norm(l);
        let (mut lo, mut hi) = (Some(l.k), Some(l.k));
        for (s, c) in &l.t {
            let (a, b) = self.unary(*s);
            let (x, y) = if *c > 0 { (a, b) } else { (b, a) };
            lo = match (lo, x) {
                (Some(p), Some(q)) => q.checked_mul(*c).and_then(|v| v.checked_add(p)),
                _ => None,
            };
            hi = match (hi, y) {
                (Some(p), Some(q)) => q.checked_mul(*c).and_then(|v| v.checked_add(p)),
                _ => None,
            };
        }
        (lo, hi)
    }
    pub fn entails(&self, c: &Con) -> bool {
        if self.bot {
            return true;
        }
        let c = self.normc(c);
        if let Some(b) = c.triv() {
            return b;
        }
        match c.r {
            Rel::Ge => self.entails_ge(&c.l),
            Rel::Eq => self.entails_ge(&c.l) && self.entails_ge(&c.l.neg()),
            Rel::Ne => {
                if self.cons.iter().any(|d| d.r == Rel::Ne && d.l == c.l) {
                    return true;
                }
                self.entails_ge(&c.l.addk(-1)) || self.entails_ge(&c.l.neg().addk(-1))
            }
        }
    }
    fn entails_ge(&self, l: &Lin) -> bool {
        STATS.with(|s| s.borrow_mut()[0] += 1);
        if let (Some(lo), _) = self.interval(l) {
            if lo >= 0 {
                return true;
            }
        }
        for c in &self.cons {
            if c.r == Rel::Ge && c.l.t == l.t && c.l.k <= l.k {
                return true;
            }
        }
        // a single-symbol query with no multi-symbol constraint around is already decided
        let neg = l.neg().addk(-1);
        STATS.with(|s| s.borrow_mut()[1] += 1);
        !self.sat_with(&neg)
    }
    /// rows relevant to the symbols of `q`
    fn component(&self, q: &Lin) -> Vec<&Con> {
        let mut set: BTreeSet<Sym> = q.t.iter().map(|p| p.0).collect();
        let mut used = vec![false; self.cons.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, c) in self.cons.iter().enumerate() {
                if used[i] || c.r == Rel::Ne {
                    continue;
                }
                if c.l.t.iter().any(|p| set.contains(&p.0)) {
                    used[i] = true;
                    ch = true;
                    out.push(c);
                    for p in &c.l.t {
                        set.insert(p.0);
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out
    }
    /// is cons ∧ (extra >= 0) satisfiable over the rationals?
    fn sat_with(&self, extra: &Lin) -> bool {
        let rows = self.component(extra);
        let mut all: Vec<(&Lin, bool)> = rows.iter().map(|c| (&c.l, c.r == Rel::Eq)).collect();
        all.push((extra, false));
        simplex_sat(&all)
    }
    pub fn can_be(&self, c: &Con) -> bool {
        !self.entails(&c.negate())
    }
    /// Add a constraint. Sets `bot` when it becomes contradictory.
    pub fn add(&mut self, c: &Con) {
        if self.bot {
            return;
        }
        let c = self.normc(c);
        match c.triv() {
            Some(true) => return,
            Some(false) => {
                self.bot = true;
                return;
            }
            None => {}
        }
        match c.r {
            Rel::Ge => {
                if self.entails_ge(&c.l) {
                    return;
                }
                let neg = c.l.neg();
                // contradiction?
                if self.entails_ge(&neg.addk(-1)) {
                    self.bot = true;
                    return;
                }
                // becomes an equality?
                if self.entails_ge(&neg) {
                    self.add_eq(&c.l);
                    return;
                }
                // drop subsumed rows
                self.cons.retain(|d| !(d.r == Rel::Ge && d.l.t == c.l.t && d.l.k >= c.l.k));
                self.cons.push(c);
                self.recheck_ne();
            }
            Rel::Eq => {
                let l = c.l.clone();
                if self.entails_ge(&l.addk(-1)) || self.entails_ge(&l.neg().addk(-1)) {
                    self.bot = true;
                    return;
                }
                if self.cons.iter().any(|d| d.r == Rel::Ne && d.l == l) {
                    self.bot = true;
                    return;
                }
                self.add_eq(&l);
            }
            Rel::Ne => {
                let ge = self.entails_ge(&c.l);
                let le = self.entails_ge(&c.l.neg());
                if ge && le {
                    self.bot = true;
                } else if ge {
                    self.add(&Con::ge(c.l.addk(-1)));
                } else if le {
                    self.add(&Con::ge(c.l.neg().addk(-1)));
                } else if !self.cons.contains(&c) {
                    self.cons.push(c);
                }
            }
        }
        self.fire_guards();
    }
    fn recheck_ne(&mut self) {
        let nes: Vec<Con> = self.cons.iter().filter(|c| c.r == Rel::Ne).cloned().collect();
        for c in nes {
            let ge = self.entails_ge(&c.l);
            let le = self.entails_ge(&c.l.neg());
            if ge || le {
                self.cons.retain(|d| d != &c);
                if ge && le {
                    self.bot = true;
                    return;
                }
                if ge {
                    self.add(&Con::ge(c.l.addk(-1)));
                } else {
                    self.add(&Con::ge(c.l.neg().addk(-1)));
                }
                if self.bot {
                    return;
                }
            }
        }
    }
    fn add_eq(&mut self, l: &Lin) {
        let l = self.norm(l);
        match l.is_const() {
            Some(0) => return,
            Some(_) => {
                self.bot = true;
                return;
            }
            None => {}
        }
        // eliminate the newest symbol with a unit coefficient
        let pick = l.t.iter().rev().find(|p| p.1 == 1 || p.1 == -1).cloned();
        if let Some((x, c)) = pick {
            // c x + rest = 0  ->  x = -rest/c
            let mut rest = l.clone();
            rest.t.retain(|p| p.0 != x);
            let e = if c == 1 { rest.neg() } else { rest };
            self.eliminate(x, &e);
        } else {
            let c = Con::eq(l);
            if !self.cons.contains(&c) {
                self.cons.push(c);
            }
        }
    }
    fn eliminate(&mut self, x: Sym, e: &Lin) {
        for v in self.subst.values_mut() {
            *v = v.subst(x, e);
        }
        self.subst.insert(x, e.clone());
        let (lo, hi) = sym_bounds(x);
        let mut todo: Vec<Con> = vec![];
        if let Some(lo) = lo {
            todo.push(Con::ge(e.addk(-lo)));
        }
        if let Some(hi) = hi {
            todo.push(Con::ge(e.neg().addk(hi)));
        }
        let mut keep = Vec::with_capacity(self.cons.len());
        for c in std::mem::take(&mut self.cons) {
            if c.l.coef(x) != 0 {
                todo.push(c.subst(x, e));
            } else {
                keep.push(c);
            }
        }
        self.cons = keep;
        for g in &mut self.guards {
            g.g = g.g.subst(x, e);
            g.c = g.c.subst(x, e);
        }
        for c in todo {
            self.add(&c);
            if self.bot {
                return;
            }
        }
    }
    pub fn fire_guards(&mut self) {
        if self.bot || self.guards.is_empty() {
            return;
        }
        loop {
            let mut fired: Vec<Con> = vec![];
            let gs = std::mem::take(&mut self.guards);
            let mut keep = vec![];
            for g in gs {
                let n = self.norm(&g.g);
                match n.is_const() {
                    Some(0) => fired.push(g.c),
                    Some(_) => {}
                    None => {
                        // contradicted or implied by the constraints?
                        if let (Some(lo), Some(hi)) = self.interval(&n) {
                            if lo > 0 || hi < 0 {
                                continue;
                            }
                        }
                        if self.cons.iter().any(|d| d.r == Rel::Ne && (d.l == n || d.l == n.neg())) {
                            continue;
                        }
                        let c = self.normc(&g.c);
                        if c.triv() == Some(true) {
                            continue;
                        }
                        // does the consequence follow from the guard alone?
                        if let Some((x, k)) = n.t.iter().find(|p| p.1 == 1 || p.1 == -1).cloned() {
                            let e = if k == 1 { n.sub(&Lin::s(x)).neg() } else { n.add(&Lin::s(x)) };
                            let c2 = Con { l: c.l.subst(x, &e), r: c.r }.norm();
                            if c2.triv() == Some(true) {
                                continue;
                            }
                        }
                        let g2 = Guard { g: n, c };
                        if !keep.contains(&g2) {
                            keep.push(g2)
                        }
                    }
                }
            }
            self.guards.extend(keep);
            if fired.is_empty() {
                break;
            }
            for c in fired {
                // add() fires guards again; it is idempotent
                self.add(&c);
                if self.bot {
                    return;
                }
            }
            if self.guards.is_empty() {
                break;
            }
        }
    }
    /// guards whose consequence is impossible cannot fire
    pub fn contrapose(&mut self) {
        loop {
            if self.bot {
                return;
            }
            let mut add = vec![];
            for g in &self.guards {
                if self.entails(&g.c.negate()) {
                    add.push(g.g.clone());
                }
            }
            if add.is_empty() {
                return;
            }
            for a in add {
                self.guards.retain(|g| g.g != a || false);
                self.add(&Con::ne(a));
            }
        }
    }
    /// entailment by refutation, using guarded facts as well
    pub fn refutes_negation(&self, c: &Con) -> bool {
        let mut t = self.clone();
        t.add(&c.negate());
        t.contrapose();
        t.bot
    }
    /// Drop everything that only talks about symbols outside `keep`; eliminates by projection.
    pub fn project(&mut self, keep: &dyn Fn(Sym) -> bool) {
        if self.bot {
            return;
        }
        self.subst.retain(|s, e| keep(*s) || (!e.t.is_empty() && e.t.iter().all(|p| keep(p.0))));
        loop {
            let mut dead: BTreeMap<Sym, (usize, usize, usize)> = BTreeMap::new();
            for c in &self.cons {
                for (s, k) in &c.l.t {
                    if !keep(*s) && !self.subst.values().any(|v| v.coef(*s) != 0) {
                        let e = dead.entry(*s).or_default();
                        match c.r {
                            Rel::Eq => e.2 += 1,
                            Rel::Ne => {}
                            Rel::Ge => {
                                if *k > 0 {
                                    e.0 += 1
                                } else {
                                    e.1 += 1
                                }
                            }
                        }
                    }
                }
            }
            let Some((&x, _)) = dead.iter().min_by_key(|(_, v)| (v.0 * v.1, v.0 + v.1)) else { break };
            self.eliminate_fm(x);
            if self.bot {
                return;
            }
        }
        let cons_syms: BTreeSet<Sym> = self.cons.iter().flat_map(|c| c.l.t.iter().map(|p| p.0)).collect();
        self.guards.retain(|g| {
            g.g.t.iter().all(|p| keep(p.0) || cons_syms.contains(&p.0)) && g.c.l.t.iter().all(|p| keep(p.0) || cons_syms.contains(&p.0))
        });
    }
    fn eliminate_fm(&mut self, x: Sym) {
        let mut pos = vec![];
        let mut neg = vec![];
        let mut rest = vec![];
        for c in std::mem::take(&mut self.cons) {
            let k = c.l.coef(x);
            if k == 0 {
                rest.push(c);
            } else if c.r == Rel::Ge {
                if k > 0 {
                    pos.push(c.l)
                } else {
                    neg.push(c.l)
                }
            } else if c.r == Rel::Eq {
                pos.push(if k > 0 { c.l.clone() } else { c.l.neg() });
                neg.push(if k > 0 { c.l.neg() } else { c.l });
            }
        }
        let (lo, hi) = sym_bounds(x);
        if let Some(lo) = lo {
            pos.push(Lin::s(x).addk(-lo));
        }
        if let Some(hi) = hi {
            neg.push(Lin::s(x).neg().addk(hi));
        }
        self.cons = rest;
        self.guards.retain(|g| g.g.coef(x) == 0 && g.c.l.coef(x) == 0);
        if pos.len() * neg.len() > 40 {
            return; // over-approximate: drop
        }
        for p in &pos {
            for n in &neg {
                let a = p.coef(x);
                let b = -n.coef(x);
                let l = p.comb(b, n, a);
                let c = Con::ge(l);
                match c.triv() {
                    Some(true) => {}
                    Some(false) => {
                        self.bot = true;
                        return;
                    }
                    None => {
                        if !self.cons.iter().any(|d| d.r == Rel::Ge && d.l.t == c.l.t && d.l.k <= c.l.k) {
                            let iv = self.interval(&c.l).0;
                            if !matches!(iv, Some(v) if v >= 0) {
                                self.cons.retain(|d| !(d.r == Rel::Ge && d.l.t == c.l.t && d.l.k >= c.l.k));
                                self.cons.push(c);
                            }
                        }
                    }
                }
            }
        }
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for c in &self.cons {
            s += &format!("    {}\n", c.show());
        }
        for (x, e) in &self.subst {
            s += &format!("    {}#{} := {}\n", sym_name(*x), x, e.show());
        }
        for g in &self.guards {
            s += &format!("    [{} == 0] => {}\n", g.g.show(), g.c.show());
        }
        s
    }
}

// ---------------------------------------------------------------- rational simplex
#[derive(Clone, Copy, Debug)]
struct Q {
    n: i128,
    d: i128,
}
impl Q {
    fn new(n: i128, d: i128) -> Q {
        if d == 1 {
            return Q { n, d };
        }
        let g = gcd(n, d);
        let (n, d) = if g > 1 { (n / g, d / g) } else { (n, d) };
        if d < 0 {
            Q { n: -n, d: -d }
        } else {
            Q { n, d }
        }
    }
    fn i(n: i128) -> Q {
        Q { n, d: 1 }
    }
    fn add(self, o: Q) -> Q {
        if self.d == 1 && o.d == 1 {
            return Q { n: self.n + o.n, d: 1 };
        }
        Q::new(self.n * o.d + o.n * self.d, self.d * o.d)
    }
    fn sub(self, o: Q) -> Q {
        self.add(Q { n: -o.n, d: o.d })
    }
    fn mul(self, o: Q) -> Q {
        Q::new(self.n * o.n, self.d * o.d)
    }
    fn div(self, o: Q) -> Q {
        Q::new(self.n * o.d, self.d * o.n)
    }
    fn lt(self, o: Q) -> bool {
        self.n * o.d < o.n * self.d
    }
    fn is0(self) -> bool {
        self.n == 0
    }
}

/// Satisfiability over the rationals of rows `l >= 0` / `l == 0` plus declared symbol bounds.
fn simplex_sat(rows: &[(&Lin, bool)]) -> bool {
    STATS.with(|s| s.borrow_mut()[2] += 1);
    let mut idx: HashMap<Sym, usize> = HashMap::new();
    let mut syms = vec![];
    for (l, _) in rows {
        for (s, _) in &l.t {
            idx.entry(*s).or_insert_with(|| {
                syms.push(*s);
                syms.len() - 1
            });
        }
    }
    let n = syms.len();
    // interval propagation first
    let mut lo: Vec<Option<i128>> = vec![];
    let mut hi: Vec<Option<i128>> = vec![];
    for s in &syms {
        let (a, b) = sym_bounds(*s);
        // clamp huge type bounds away: they only cost precision in the arithmetic
        lo.push(a);
        hi.push(b.filter(|v| *v < (1i128 << 62)));
    }
    let mut multi: Vec<(&Lin, bool)> = vec![];
    for (l, eq) in rows {
        if l.t.is_empty() {
            if (*eq && l.k != 0) || l.k < 0 {
                return false;
            }
            continue;
        }
        if l.t.len() == 1 {
            let (s, a) = l.t[0];
            let i = idx[&s];
            let mut tighten_lo = |v: i128| lo[i] = Some(lo[i].map_or(v, |x| x.max(v)));
            if *eq {
                if l.k % a != 0 {
                    return false;
                }
                let v = -l.k / a;
                tighten_lo(v);
                hi[i] = Some(hi[i].map_or(v, |x| x.min(v)));
            } else if a > 0 {
                tighten_lo(-(l.k.div_euclid(a)));
            } else {
                let v = l.k.div_euclid(-a);
                hi[i] = Some(hi[i].map_or(v, |x| x.min(v)));
            }
        } else {
            multi.push((l, *eq));
        }
    }
    for i in 0..n {
        if let (Some(a), Some(b)) = (lo[i], hi[i]) {
            if a > b {
                return false;
            }
        }
    }
    if multi.is_empty() {
        return true;
    }
    let m = multi.len();
    let tot = n + m;
    let mut lb: Vec<Option<Q>> = lo.iter().map(|x| x.map(Q::i)).collect();
    let mut ub: Vec<Option<Q>> = hi.iter().map(|x| x.map(Q::i)).collect();
    let mut tab: Vec<Vec<Q>> = Vec::with_capacity(m);
    // nonbasic list: columns
    let mut cols: Vec<usize> = (0..n).collect();
    let mut basic: Vec<usize> = (n..tot).collect();
    for (l, eq) in &multi {
        let mut r = vec![Q::i(0); n];
        for (s, c) in &l.t {
            r[idx[s]] = Q::i(*c);
        }
        tab.push(r);
        let b = Q::i(-l.k);
        lb.push(Some(b));
        ub.push(if *eq { Some(b) } else { None });
    }
    let mut val: Vec<Q> = vec![Q::i(0); tot];
    for i in 0..n {
        val[i] = match (lb[i], ub[i]) {
            (Some(a), _) => a,
            (None, Some(b)) => b,
            _ => Q::i(0),
        };
    }
    for r in 0..m {
        let mut v = Q::i(0);
        for c in 0..n {
            if !tab[r][c].is0() {
                v = v.add(tab[r][c].mul(val[cols[c]]));
            }
        }
        val[n + r] = v;
    }
    let mut steps = 0;
    loop {
        steps += 1;
        if steps > 2000 {
            return true;
        }
        // violated basic variable with the smallest index
        let mut pick: Option<(usize, bool)> = None;
        for r in 0..m {
            let b = basic[r];
            let low = lb[b].map_or(false, |x| val[b].lt(x));
            let high = ub[b].map_or(false, |x| x.lt(val[b]));
            if low || high {
                if pick.map_or(true, |(pr, _)| b < basic[pr]) {
                    pick = Some((r, low));
                }
            }
        }
        let Some((r, low)) = pick else { return true };
        let b = basic[r];
        let mut enter: Option<usize> = None;
        for c in 0..n {
            let a = tab[r][c];
            if a.is0() {
                continue;
            }
            let x = cols[c];
            let inc = (a.n > 0) == low; // must x increase?
            let ok = if inc { ub[x].map_or(true, |u| val[x].lt(u)) } else { lb[x].map_or(true, |l| l.lt(val[x])) };
            if ok && enter.map_or(true, |e| x < cols[e]) {
                enter = Some(c);
            }
        }
        let Some(c) = enter else { return false };
        let target = if low { lb[b].unwrap() } else { ub[b].unwrap() };
        let a = tab[r][c];
        let theta = target.sub(val[b]).div(a);
        let x = cols[c];
        val[b] = target;
        val[x] = val[x].add(theta);
        for q in 0..m {
            if q != r && !tab[q][c].is0() {
                let bq = basic[q];
                val[bq] = val[bq].add(tab[q][c].mul(theta));
            }
        }
        // pivot
        let inv = Q::i(1).div(a);
        let mut newrow: Vec<Q> = tab[r].iter().map(|v| if v.is0() { *v } else { Q::i(0).sub(v.mul(inv)) }).collect();
        newrow[c] = inv;
        for q in 0..m {
            if q != r && !tab[q][c].is0() {
                let f = tab[q][c];
                for cc in 0..n {
                    if cc == c {
                        tab[q][cc] = f.mul(newrow[c]);
                    } else if !newrow[cc].is0() {
                        tab[q][cc] = tab[q][cc].add(f.mul(newrow[cc]));
                    }
                }
            }
        }
        tab[r] = newrow;
        basic[r] = x;
        cols[c] = b;
    }
}

#[cfg(test)]
mod t {
    use super::*;
    fn v(n: &str) -> Lin {
        Lin::s(fresh(Some(0), None, false, n))
    }
    #[test]
    fn basic() {
        let (a, b, c) = (v("a"), v("b"), v("c"));
        let mut cs = Cs::default();
        cs.add(&Con::le2(&a, &b));
        cs.add(&Con::le2(&b, &c));
        assert!(cs.entails(&Con::le2(&a, &c)));
        assert!(!cs.entails(&Con::lt2(&a, &c)));
        cs.add(&Con::lt2(&c, &a.addk(1)));
        assert!(cs.entails(&Con::eq2(&a, &c)));
        assert!(!cs.bot);
        cs.add(&Con::ne(a.sub(&b)));
        assert!(cs.bot);
    }
    #[test]
    fn fm() {
        let (a, b, c) = (v("a"), v("b"), v("c"));
        let mut cs = Cs::default();
        cs.add(&Con::le2(&a, &b));
        cs.add(&Con::le2(&b, &c));
        let bs = b.t[0].0;
        cs.project(&|s| s != bs);
        assert!(cs.entails(&Con::le2(&a, &c)));
        assert_eq!(cs.cons.len(), 1);
    }
}
