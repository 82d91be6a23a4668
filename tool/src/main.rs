#![feature(rustc_private)]
#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

mod interp;
mod lin;
mod prims;
mod reach;
mod state;
mod val;

pub use rustc_public::abi::{FieldsShape, Primitive, Scalar, TagEncoding, VariantsShape};
pub use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::*;
use std::ops::ControlFlow;

fn main() {
    // invoked as: linerlint <rustc> args...
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let is_harness = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "harness");
    if !is_harness {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    if let Ok(f) = std::env::var("LL_CAPTURE") {
        let mut t = String::new();
        for a in &args {
            t += a;
            t.push('\n');
        }
        std::fs::write(&f, t).unwrap();
        std::fs::write(f.clone() + ".env", std::env::vars().filter(|(k, v)| (k.starts_with("CARGO_") || k == "OUT_DIR") && !v.contains('\n')).map(|(k, v)| format!("{}={}\n", k, v)).collect::<String>()).unwrap();
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let r = rustc_public::run!(&args, callback);
            if std::env::var("LL_OUT").is_ok() {
                std::process::exit(if r.is_ok() { 0 } else { 3 });
            }
        })
        .unwrap();
    h.join().unwrap();
}

fn callback() -> ControlFlow<(), ()> {
    let krate = rustc_public::local_crate();
    let mut ip = interp::Interp::new();
    if let Some(d) = std::env::var("LL_DEADLINE").ok().and_then(|x| x.parse().ok()) {
        ip.deadline = Some(std::time::Instant::now() + std::time::Duration::from_secs(d));
    }
    if let Ok(f) = std::env::var("LL_REACH") {
        let mut g = reach::Graph::default();
        let mut rs = vec![];
        for f in krate.fn_defs() {
            let n = f.name().to_string();
            let TyKind::RigidTy(RigidTy::FnDef(def, args)) = f.ty().kind() else { continue };
            let s = n.rsplit("::").next().unwrap().to_string();
            if s.starts_with("reach_") {
                if let Ok(i) = Instance::resolve(def, &args) {
                    rs.push((s, g.reach(i)));
                }
            }
        }
        let nodes: Vec<String> = g
            .nodes
            .iter()
            .map(|n| {
                let e: Vec<String> = n.edges.iter().map(|(k, at)| format!("[{},{}]", k, q(at))).collect();
                let f: Vec<String> = n.fields.iter().map(|x| q(x)).collect();
                let d = n.inst.def;
                format!("{{\"name\":{},\"def\":{},\"crate\":{},\"body\":{},\"edges\":[{}],\"fields\":[{}]}}", q(&n.name), q(&d.name()), q(&d.krate().name), n.body, e.join(","), f.join(","))
            })
            .collect();
        let rs: Vec<String> = rs.iter().map(|(s, n)| format!("{}:{}", q(s), n)).collect();
        let dy: Vec<String> = g.dynamic.iter().map(|x| q(x)).collect();
        std::fs::write(f, format!("{{\"roots\":{{{}}},\"dynamic\":[{}],\"nodes\":[{}]}}", rs.join(","), dy.join(","), nodes.join(",\n"))).unwrap();
        return ControlFlow::Continue(());
    }
    let want: Option<Vec<String>> = std::env::var("LL_ROOTS").ok().map(|s| s.split(',').map(|x| x.to_string()).collect());
    let mut roots = vec![];
    for f in krate.fn_defs() {
        let n = f.name().to_string();
        let TyKind::RigidTy(RigidTy::FnDef(def, args)) = f.ty().kind() else { continue };
        let s = n.rsplit("::").next().unwrap().to_string();
        if n.contains("harness::model::") {
            ip.models.insert(s.clone(), def);
        }
        if n.contains("harness::contract::") {
            ip.contracts.insert(s.clone(), def);
        }
        if s.starts_with("root_") {
            if let Ok(i) = Instance::resolve(def, &args) {
                roots.push((s, i));
            }
        }
    }
    roots.sort_by(|a, b| a.0.cmp(&b.0));
    let mut total: BTreeMap<String, (u64, u64, u64)> = BTreeMap::new();
    let mut per_case: Vec<(String, bool, Vec<String>, Vec<String>)> = vec![];
    let mut found: BTreeSet<String> = BTreeSet::new();
    for (n, i) in roots {
        if let Some(w) = &want {
            if !w.contains(&n) {
                continue;
            }
        }
        found.insert(n.clone());
        ip.no_contract.clear();
        if let Some(x) = n.strip_prefix("root_def_") {
            ip.no_contract.insert(x.split("__").next().unwrap().to_string());
        }
        // the contracts of Buffer are for roots about the editor, those of Editor's operations for roots about keys
        let (on_ed, on_key) = (n.starts_with("root_ed_") || n.starts_with("root_def_editor") || n.starts_with("root_def_vi_"), n.starts_with("root_key_"));
        if n == "root_ed_display" || n.starts_with("root_def_editor_display") {
            ip.no_contract.insert("editor_display".into());
        }
        for x in ip.contracts.keys() {
            let editor = x.starts_with("editor_") && x != "editor_display_impl" && x != "editor_display";
            // those for the redraw only matter there
            let redraw = ["buffer_range_width", "buffer_lines", "util_last_prompt_line_width", "display_impl_calc_width", "editor_print_completion_list"].contains(&x.as_str());
            if redraw {
                if !n.starts_with("root_def_editor_display_impl") {
                    ip.no_contract.insert(x.to_string());
                }
                continue;
            }
            if x == "editor_get_word_before_cursor" || x == "editor_delete_word_before_cursor" {
                if n != "root_ed_complete" {
                    ip.no_contract.insert(x.to_string());
                }
                continue;
            }
            if x == "buffer_contains" || x == "buffer_starts_with" {
                if !n.ends_with("__matching") {
                    ip.no_contract.insert(x.to_string());
                }
                continue;
            }
            if (x.starts_with("buffer_") && !on_ed && !on_key) || (x.ends_with("_undo_group") && !on_key) || (editor && !on_key) {
                ip.no_contract.insert(x.to_string());
            }
        }
        ip.on_key = n.starts_with("root_key_");
        let Some(bi) = ip.body(i) else { continue };
        ip.cases.clear();
        if let Ok(c) = std::env::var("LL_CASE") {
            ip.cases = c.split('.').map(|x| (x.parse().unwrap(), 1)).collect();
        }
        // of the cases, only every n-th (all shards run the first one, to find out how many cases there are)
        let shard: Option<(u64, u64)> = std::env::var("LL_SHARD").ok().and_then(|x| {
            let (a, b) = x.split_once('/')?;
            Some((a.parse().ok()?, b.parse().ok()?))
        });
        let mut nth = 0u64;
        // only these cases
        let list: Option<Vec<Vec<(usize, usize)>>> = std::env::var("LL_CASES").ok().map(|s| s.split(',').map(|c| c.split('.').filter(|x| !x.is_empty()).map(|x| (x.parse().unwrap(), 1)).collect()).collect());
        if let Some(l) = &list {
            ip.cases = l[0].clone();
        }
        loop {
            let t0 = std::time::Instant::now();
            state::PARTITION.with(|p| p.borrow_mut().clear());
            let args: Vec<val::V> = bi.body.arg_locals().iter().enumerate().map(|(k, l)| val::fresh_val(l.ty, &format!("arg{}", k), false)).collect();
            let mut st0 = state::State::default();
            let args: Vec<val::V> = args
                .into_iter()
                .map(|a| match interp::deref(&a) {
                    Some(p) if matches!(a, val::V::Opq(_)) => {
                        let v = st0.base(p.base);
                        st0.set_base(p.base, v);
                        val::V::Ref(p)
                    }
                    _ => a,
                })
                .collect();
            let out = ip.run_body(i, bi.clone(), args, st0);
            ip.n_cases += 1;
            let case = ip.case_name();
            let fail: Vec<String> = ip.stats.oblig.iter().filter(|x| x.1 .1 > 0).map(|x| x.0.clone()).collect();
            let und: Vec<String> = ip.stats.oblig.iter().filter(|x| x.1 .1 == 0 && x.1 .2 > 0).map(|x| x.0.clone()).collect();
            let skip = list.is_none() && std::env::var("LL_CASE").is_err() && nth == 0 && shard.map_or(false, |s| s.0 != 0);
            if !skip {
                for (k, v) in std::mem::take(&mut ip.stats.oblig) {
                    let o = total.entry(k).or_insert((0, 0, 0));
                    *o = (o.0 + v.0, o.1 + v.1, o.2 + v.2);
                }
                per_case.push((case, !ip.timed_out, fail, und));
            }
            println!("root {} case {} exits {} in {:?} blocks {} joins {}", n, ip.case_name(), out.len(), t0.elapsed(), ip.stats.blocks, ip.stats.joins);
            // next case
            if std::env::var("LL_CASE").is_ok() || ip.timed_out {
                break;
            }
            if let Some(l) = &list {
                nth += 1;
                match l.get(nth as usize) {
                    Some(c) => {
                        ip.cases = c.clone();
                        continue;
                    }
                    None => break,
                }
            }
            if nth == 0 && shard.map_or(false, |s| s.0 != 0) {
                ip.reports.clear();
                ip.stats.oblig.clear();
                ip.n_cases -= 1;
            }
            let mut last = false;
            loop {
                nth += 1;
                let mut k = 0;
                while k < ip.cases.len() {
                    ip.cases[k].0 += 1;
                    if ip.cases[k].0 < ip.cases[k].1 {
                        break;
                    }
                    ip.cases[k].0 = 0;
                    k += 1;
                }
                if k == ip.cases.len() {
                    last = true;
                    break;
                }
                if shard.map_or(true, |s| nth % s.1 == s.0) {
                    break;
                }
            }
            if last {
                break;
            }
        }
    }
    ip.stats.oblig = total;
    for w in want.iter().flatten() {
        if !found.contains(w) {
            ip.stats.missing.insert(format!("root {}", w));
        }
    }
    if let Ok(f) = std::env::var("LL_OUT") {
        std::fs::write(f, json(&ip, &per_case)).unwrap();
        return ControlFlow::Continue(());
    }
    for ((p, k), r) in &ip.reports {
        println!("REPORT {} | {} | x{}", p, k, r.n);
        if std::env::var("LL_VERBOSE").is_ok() {
            println!("{}", r.text);
        }
    }
    let (mut a, mut b, mut c) = (0, 0, 0);
    for (k, (x, y, z)) in &ip.stats.oblig {
        if *y > 0 {
            b += 1
        } else if *z > 0 {
            c += 1;
            println!("UNDECIDED {} ok {} und {}", k, x, z);
        } else {
            a += 1
        }
    }
    println!("obligations proven {} failed {} undecided {}", a, b, c);
    for (k, n) in &ip.stats.unmodelled {
        println!("UNMODELLED {} x{}", k, n);
    }
    for (k, n) in &ip.stats.taint_src {
        println!("TAINT {} x{}", k, n);
    }
    for (k, n) in &ip.stats.nonconv {
        println!("NONCONV {} x{}", k, n);
    }
    for (k, n) in &ip.stats.contracts {
        println!("CONTRACT {} x{}", k, n);
    }
    for k in &ip.stats.missing {
        println!("MISSING {}", k);
    }
    if !ip.prof.is_empty() {
        let mut p: Vec<_> = ip.prof.iter().collect();
        p.sort_by(|a, b| b.1 .1.partial_cmp(&a.1 .1).unwrap());
        for (k, (n, t)) in p.iter().take(40) {
            println!("PROF {:9.3}s x{} {}", t, n, k);
        }
    }
    ControlFlow::Continue(())
}

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn json(ip: &interp::Interp, per_case: &[(String, bool, Vec<String>, Vec<String>)]) -> String {
    let ks = |l: &Vec<String>| l.iter().map(|x| q(x)).collect::<Vec<_>>().join(",");
    let pc: Vec<String> = per_case.iter().map(|(c, d, f, u)| format!("{}:[{},[{}],[{}]]", q(c), d, ks(f), ks(u))).collect();
    let map = |m: &BTreeMap<String, u64>| -> String { m.iter().map(|(k, n)| format!("{}:{}", q(k), n)).collect::<Vec<_>>().join(",") };
    let rep: Vec<String> = ip.reports.iter().map(|((p, k), r)| format!("{{\"prop\":{},\"key\":{},\"n\":{},\"text\":{}}}", q(p), q(k), r.n, q(&r.text))).collect();
    let obl: Vec<String> = ip.stats.oblig.iter().map(|(k, (x, y, z))| format!("{}:[{},{},{}]", q(k), x, y, z)).collect();
    format!(
        "{{\"per_case\":{{{}}},\"timed_out\":{},\"cases\":{},\"blocks\":{},\"joins\":{},\"calls\":{},\"reports\":[{}],\"oblig\":{{{}}},\"unmodelled\":{{{}}},\"taint\":{{{}}},\"nonconv\":{{{}}},\"contracts\":{{{}}},\"missing\":[{}],\"funcs\":[{}]}}\n",
        pc.join(","),
        ip.timed_out,
        ip.n_cases,
        ip.stats.blocks,
        ip.stats.joins,
        ip.stats.calls,
        rep.join(","),
        obl.join(","),
        map(&ip.stats.unmodelled),
        map(&ip.stats.taint_src),
        map(&ip.stats.nonconv),
        map(&ip.stats.contracts),
        ip.stats.missing.iter().map(|x| q(x)).collect::<Vec<_>>().join(","),
        ip.stats.funcs.iter().map(|x| q(x)).collect::<Vec<_>>().join(",")
    )
}
