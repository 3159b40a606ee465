//! strokelint: used as RUSTC_WRAPPER.  It lets the compiler build the program
//! and, once the program is type-checked and lowered to MIR, applies the rules
//! of one property to it and writes what it found as JSON.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
mod ck; mod interp; mod ir; mod lints; mod long; mod poly; mod rat; mod rules; mod safety; mod spline; mod term; mod value;
use std::collections::BTreeMap;
use std::ops::ControlFlow;

fn main() {
    // formulas are walked recursively, in a thread made by the compiler
    unsafe { std::env::set_var("RUST_MIN_STACK", "2147483648"); }
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(0); }
    let krate = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let prop = std::env::var("STROKELINT_PROP").unwrap_or_default();
    let target = std::env::var("STROKELINT_CRATE").unwrap_or_else(|_| "stroke".into());
    let lint = prop == "C16" || prop == "C19" || (prop == "C30" && target != "stroke");
    let plain = |args: &[String]| -> ! {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1))
    };
    if krate == target && prop == "C16" { args.push("-Funsafe_code".into()); }
    if (lint && krate != target) || (!lint && krate != "stroke_harness") { plain(&args); }
    std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
        let r = if lint { rustc_public::run_with_tcx!(&args, |tcx| { items(tcx, &prop); ControlFlow::<(), ()>::Continue(()) }) }
            else { rustc_public::run_with_tcx!(&args, |tcx| { analyse(tcx, &prop); ControlFlow::<(), ()>::Continue(()) }) };
        if r.is_err() { std::process::exit(1); }
    }).unwrap().join().unwrap_or_else(|_| std::process::exit(101));
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")) }
fn write_out(s: String) {
    match std::env::var("STROKELINT_OUT") { Ok(p) => std::fs::write(p, s).expect("writing the result"), Err(_) => println!("{}", s) }
}
fn items(tcx: rustc_middle::ty::TyCtxt<'_>, prop: &str) {
    let (v, blocks) = if prop == "C30" { (lints::sealed(tcx), 0) } else if prop == "C19" { lints::purity(tcx) } else { (lints::environment(tcx), 0) };
    let ok = v.iter().filter(|i| i.r.is_ok()).count();
    let mut per: BTreeMap<&str, (u64, u64)> = BTreeMap::new();
    for i in &v { let e = per.entry(i.rule).or_insert((0, 0)); e.0 += 1; if i.r.is_ok() { e.1 += 1; } }
    let viol: Vec<String> = v.iter().filter_map(|i| i.r.as_ref().err().map(|m| format!("{{\"rule\":{},\"instance\":{},\"what\":{},\"construct\":{}}}", js(i.rule), js(&i.inst), js(m), jl(&[i.place.clone()])))).collect();
    let samples: Vec<String> = v.iter().filter_map(|i| i.r.as_ref().ok().map(|m| format!("[{}] {} ({}): {}", i.rule, i.inst, i.place, m))).take(40).collect();
    write_out(format!("{{\"obligations\":{},\"discharged\":{},\"undischarged\":{},\"violations\":[{}],\"rules\":{},\"samples\":{},\"items\":{},\"mir_blocks\":{}}}",
        v.len(), ok, v.len() - ok, viol.join(","), rules_json(&per.iter().map(|(k, v)| (k.to_string(), *v)).collect()), jl(&samples), v.len(), blocks));
}
fn rules_json(m: &BTreeMap<String, (u64, u64)>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{{\"obligations\":{},\"discharged\":{}}}", js(k), v.0, v.1)).collect::<Vec<_>>().join(","))
}
fn sealed(c: &mut ck::Ck, v: Vec<lints::Item>) {
    for i in v {
        let run = ck::Run { name: i.inst, case: String::new(), outs: vec![], construct: vec![i.place] };
        c.ob(i.rule, &run, "", i.r);
    }
}
fn analyse(tcx: rustc_middle::ty::TyCtxt<'_>, prop: &str) {
    use rustc_public::crate_def::CrateDef;
    let t0 = std::time::Instant::now();
    let mut ents = BTreeMap::new();
    for f in rustc_public::all_local_items() {
        let n = f.name().to_string();
        let n = n.strip_prefix("stroke_harness::").unwrap_or(&n).to_string();
        if n.matches("::").count() != 1 { continue; }
        if let Ok(i) = rustc_public::mir::mono::Instance::try_from(f) { if !f.requires_monomorphization() { ents.insert(n, i); } }
    }
    let bodies = lints::collect_literals();
    let mut c = ck::Ck { it: interp::Interp::new(), ents, thorough: std::env::var("VERIF_TIER").as_deref() == Ok("thorough"), prop: prop.to_string(), obligations: 0, discharged: 0, runs: 0, viol: vec![], nviol: 0, per_rule: BTreeMap::new(), samples: vec![], instances: Default::default(), controls: BTreeMap::new(), notes: vec![], soft: false, soft_s: 10, inconclusive: BTreeMap::new(), end: t0 + std::time::Duration::from_secs(std::env::var("STROKELINT_SECONDS").ok().and_then(|x| x.parse().ok()).unwrap_or(700)), skipped: 0, first_fail: None, prefix: false };
    term::set_tol(match prop { "C07" => term::Tol::Products, "C17" => term::Tol::Infinitesimal, "C11" | "C12" | "C13" | "C14" | "C15" | "C30" | "C31" | "C32" => term::Tol::Full, _ => term::Tol::Exact });
    term::set_rounding(prop == "C12");
    match prop {
        "C01" => rules::c01(&mut c), "C02" => rules::c02(&mut c), "C03" => rules::c03(&mut c), "C04" => rules::c04(&mut c),
        "C05" => rules::c05(&mut c), "C06" => rules::c06(&mut c), "C07" => rules::c07(&mut c), "C08" => rules::c08(&mut c),
        "C09" => rules::c09(&mut c), "C10" => rules::c10(&mut c), "C11" => spline::c11(&mut c), "C12" => spline::c12(&mut c),
        "C13" => spline::c13(&mut c), "C14" => { spline::c14(&mut c); spline::c14_second(&mut c) } "C15" => spline::c15(&mut c), "C17" => safety::c17(&mut c),
        "C18" => rules::c18(&mut c), "C20" => rules::c20(&mut c), "C21" => rules::c21(&mut c), "C22" => rules::c22(&mut c),
        "C23" => rules::c23(&mut c), "C24" => rules::c24(&mut c),
        "C28" => rules::c28(&mut c), "C29" => rules::c29(&mut c), "C30" => { sealed(&mut c, lints::sealed(tcx)); spline::c30(&mut c) } "C31" => spline::c31(&mut c), "C32" => rules::c32(&mut c),
        _ => { eprintln!("unknown property {}", prop); std::process::exit(3); }
    }
    let viol: Vec<String> = c.viol.iter().map(|v| format!("{{\"rule\":{},\"instance\":{},\"what\":{},\"construct\":{}}}", js(&v.rule), js(&v.inst), js(&v.what), jl(&v.construct))).collect();
    let mut fns: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    for (_, (f, bbs)) in &c.it.cov {
        let e = fns.entry(format!("{}:{} {}", ck::short(&f.file), f.line, strip(&f.name))).or_insert((0, 0));
        e.0 = e.0.max(bbs.len());
        e.1 = e.1.max(f.blocks.len());
    }
    let fl: Vec<String> = fns.iter().map(|(k, v)| format!("{} ({} of {} blocks reached)", k, v.0, v.1)).collect();
    let inst: Vec<String> = c.instances.iter().cloned().collect();
    write_out(format!("{{\"obligations\":{},\"discharged\":{},\"undischarged\":{},\"violations\":[{}],\"rules\":{},\"samples\":{},\"abstract_runs\":{},\"trace_partitions\":{},\"mir_statements_interpreted\":{},\"library_instances\":{},\"functions\":{},\"entry_points\":{},\"library_bodies\":{},\"negative_controls\":{},\"analysis_s\":{:.2},\"skipped_runs\":{},\"inconclusive\":{{{}}}}}",
        c.obligations, c.discharged, c.nviol, viol.join(","), rules_json(&c.per_rule), jl(&c.samples), c.runs, c.it.total_parts, c.it.total_steps, c.it.cov.len(), jl(&fl), jl(&inst), bodies, c.controls.values().sum::<u64>(), t0.elapsed().as_secs_f64(), c.skipped, c.inconclusive.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")));
}
fn strip(n: &str) -> String { n.to_string() }
