//! Call graph of the type-checked program: everything a root can reach, through calls, drops, function items
//! and closures that are created on the way, with the fields of the crate's own types that are read.
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::*;

pub struct Node {
    pub name: String,
    pub inst: Instance,
    pub edges: Vec<(usize, String)>,
    pub fields: BTreeSet<String>,
    pub body: bool,
}
#[derive(Default)]
pub struct Graph {
    pub nodes: Vec<Node>,
    index: HashMap<Instance, usize>,
    pub dynamic: BTreeSet<String>,
}
struct V<'a> {
    body: &'a Body,
    out: Vec<(Instance, String)>,
    fields: BTreeSet<String>,
    dynamic: Vec<String>,
}
fn kind(t: Ty) -> Option<RigidTy> {
    match t.kind() {
        TyKind::RigidTy(r) => Some(r),
        _ => None,
    }
}
impl<'a> V<'a> {
    fn at(&self, s: &Span) -> String {
        let l = s.get_lines();
        format!("{}:{}", s.get_filename(), l.start_line)
    }
    fn fn_item(&mut self, t: Ty, s: &Span) {
        if let Some(RigidTy::FnDef(d, a)) = kind(t) {
            match Instance::resolve(d, &a) {
                Ok(i) => self.out.push((i, self.at(s))),
                Err(_) => self.dynamic.push(d.name().to_string()),
            }
        }
    }
}
impl<'a> MirVisitor for V<'a> {
    fn visit_terminator(&mut self, t: &Terminator, loc: rustc_public::mir::visit::Location) {
        match &t.kind {
            TerminatorKind::Call { func, destination, .. } => {
                // what ends in a panic is not followed
                let never = destination.ty(self.body.locals()).map(|x| matches!(kind(x), Some(RigidTy::Never))).unwrap_or(false);
                if never {
                    return;
                }
                if let Ok(ft) = func.ty(self.body.locals()) {
                    self.fn_item(ft, &loc.span());
                }
            }
            TerminatorKind::Drop { place, .. } => {
                if let Ok(pt) = place.ty(self.body.locals()) {
                    let i = Instance::resolve_drop_in_place(pt);
                    if !i.is_empty_shim() {
                        self.out.push((i, self.at(&loc.span())));
                    }
                }
            }
            _ => {}
        }
        self.super_terminator(t, loc);
    }
    fn visit_rvalue(&mut self, r: &Rvalue, loc: rustc_public::mir::visit::Location) {
        if let Rvalue::Aggregate(AggregateKind::Closure(d, a), _) = r {
            if let Ok(i) = Instance::resolve_closure(*d, a, ClosureKind::FnOnce) {
                let at = self.at(&loc.span());
                self.out.push((i, at));
            }
        }
        self.super_rvalue(r, loc);
    }
    fn visit_const_operand(&mut self, c: &ConstOperand, loc: rustc_public::mir::visit::Location) {
        let s = loc.span();
        // (callees are visited as operands as well, those that never return included; see `visit_terminator`)
        if let Some(RigidTy::FnDef(d, _)) = kind(c.const_.ty()) {
            let sig = d.fn_sig().skip_binder().output();
            if !matches!(kind(sig), Some(RigidTy::Never)) {
                self.fn_item(c.const_.ty(), &s);
            }
        }
    }
    fn visit_place(&mut self, p: &Place, c: rustc_public::mir::visit::PlaceContext, loc: rustc_public::mir::visit::Location) {
        let mut t = match self.body.locals().get(p.local) {
            Some(l) => l.ty,
            None => return,
        };
        for e in &p.projection {
            if let ProjectionElem::Field(i, _) = e {
                if let Some(RigidTy::Adt(d, _)) = kind(t) {
                    let n = d.name().to_string();
                    if n.contains("liner::") && d.kind() == AdtKind::Struct {
                        if let Some(v) = d.variants().first() {
                            if let Some(f) = v.fields().get(*i) {
                                self.fields.insert(format!("{}.{}", n.rsplit("::").next().unwrap(), f.name));
                            }
                        }
                    }
                }
            }
            match e.ty(t) {
                Ok(x) => t = x,
                Err(_) => break,
            }
        }
        self.super_place(p, c, loc);
    }
}
impl Graph {
    fn node(&mut self, i: Instance, todo: &mut Vec<usize>) -> usize {
        if let Some(&n) = self.index.get(&i) {
            return n;
        }
        let n = self.nodes.len();
        self.nodes.push(Node { name: i.name().to_string(), inst: i, edges: vec![], fields: BTreeSet::new(), body: false });
        self.index.insert(i, n);
        todo.push(n);
        n
    }
    pub fn reach(&mut self, root: Instance) -> usize {
        let mut todo = vec![];
        let r = self.node(root, &mut todo);
        while let Some(n) = todo.pop() {
            let i = self.nodes[n].inst;
            if let InstanceKind::Virtual { .. } = i.kind {
                self.dynamic.insert(self.nodes[n].name.clone());
                continue;
            }
            let Some(b) = i.body() else { continue };
            self.nodes[n].body = true;
            let mut v = V { body: &b, out: vec![], fields: BTreeSet::new(), dynamic: vec![] };
            v.visit_body(&b);
            let V { out, fields, dynamic, .. } = v;
            self.nodes[n].fields = fields;
            self.dynamic.extend(dynamic);
            for (i, at) in out {
                let k = self.node(i, &mut todo);
                if !self.nodes[n].edges.iter().any(|x| x.0 == k) {
                    self.nodes[n].edges.push((k, at));
                }
            }
        }
        r
    }
}
