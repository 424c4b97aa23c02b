#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
mod interp;
mod scan;
mod val;
use interp::{Interp, Mode};
use rustc_hir::def::DefKind;
use rustc_middle::ty::TyCtxt;
use std::collections::BTreeMap;
use val::jstr;

struct Cb {
    cfg: BTreeMap<String, Mode>,
    out: String,
}
fn parse_cfg(s: &str) -> BTreeMap<String, Mode> {
    let mut m = BTreeMap::new();
    for l in s.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        if f.is_empty() || f[0].is_empty() {
            continue;
        }
        let flags = f.get(1).copied().unwrap_or("");
        let has = |x: &str| flags.split(',').any(|y| y == x);
        let list = |i: usize| -> Vec<String> {
            f.get(i).map(|s| s.split('|').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()).unwrap_or_default()
        };
        m.insert(
            f[0].to_string(),
            Mode {
                io_fail: has("io_fail"),
                checks: has("checks"),
                casts: has("casts"),
                alloc: has("alloc"),
                locks: has("locks"),
                bufs: has("bufs"),
                inline_all: has("inline_all"),
                inline: list(2),
                invisible: list(3),
            },
        );
    }
    m
}
fn dump(it: &Interp<'_>, start: usize) -> String {
    let mut o = String::from("{\"nodes\":[");
    for (i, n) in it.nodes.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&format!("{{\"k\":{}", jstr(&n.kind)));
        for (k, v) in &n.fields {
            o.push_str(&format!(",{}:{}", jstr(k), v));
        }
        o.push_str(",\"s\":[");
        let mut first = true;
        for (l, t) in &n.succ {
            if *t == usize::MAX {
                continue;
            }
            if !first {
                o.push(',');
            }
            first = false;
            o.push_str(&format!("[{},{}]", jstr(l), t));
        }
        o.push_str("]}");
    }
    o.push_str(&format!("],\"start\":{}", start));
    let l = |s: &mut dyn Iterator<Item = &String>| s.map(|x| jstr(x)).collect::<Vec<_>>().join(",");
    o.push_str(&format!(",\"opaque\":[{}]", l(&mut it.opaque.iter())));
    o.push_str(&format!(",\"inlined\":[{}]", l(&mut it.inlined.iter())));
    o.push_str(&format!(",\"unsafe\":[{}]", l(&mut it.unsafe_ops.iter())));
    o.push_str(&format!(",\"bails\":[{}]", l(&mut it.bails.iter())));
    o.push('}');
    o
}
/// the definition of every local struct and enum: one line per part
fn adts(tcx: TyCtxt<'_>) -> String {
    let mut o = String::from("{");
    let mut first = true;
    let attrs = |d: rustc_hir::def_id::LocalDefId| -> Vec<String> {
        let h = tcx.local_def_id_to_hir_id(d);
        tcx.hir_attrs(h).iter().map(|a| format!("{:?}", a)).collect()
    };
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            continue;
        }
        let adt = tcx.adt_def(d);
        let vis = |d| format!("{:?}", tcx.visibility(d));
        let mut l: Vec<String> = vec![format!("item {:?} {} repr {:?}", tcx.def_kind(d), vis(d), adt.repr())];
        for a in attrs(id) {
            l.push(format!("item attribute {}", a));
        }
        let g = tcx.generics_of(d);
        for p in &g.own_params {
            l.push(format!("parameter {} {:?}", p.name, p.kind));
        }
        for (p, _) in tcx.explicit_clauses_of(d).clauses {
            l.push(format!("bound {:?}", p));
        }
        for (i, v) in adt.variants().iter_enumerated() {
            let disc = if adt.is_enum() { format!("{}", adt.discriminant_for_variant(tcx, i).val) } else { String::new() };
            l.push(format!("variant {} {} {:?} {}", i.as_usize(), v.name, v.ctor_kind(), disc));
            if adt.is_enum() {
                for a in attrs(v.def_id.expect_local()) {
                    l.push(format!("variant {} attribute {}", v.name, a));
                }
            }
            for (k, f) in v.fields.iter().enumerate() {
                let t = tcx.type_of(f.did).instantiate_identity();
                l.push(format!("field {}.{} {} {:?} {}", v.name, k, f.name, t, vis(f.did)));
                for a in attrs(f.did.expect_local()) {
                    l.push(format!("field {}.{} attribute {}", v.name, k, a));
                }
            }
        }
        let mut im: Vec<String> = Vec::new();
        for (tr, is) in tcx.all_local_trait_impls(()) {
            for i in is {
                if let rustc_middle::ty::TyKind::Adt(x, _) = tcx.type_of(*i).instantiate_identity().skip_norm_wip().kind() {
                    if x.did() == d {
                        im.push(format!("impl {}", tcx.def_path_str(*tr)));
                    }
                }
            }
        }
        im.sort();
        l.extend(im);
        if !first {
            o.push_str(",\n");
        }
        first = false;
        o.push_str(&format!("{}:[{}]", jstr(&tcx.def_path_str(d)), l.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",")));
    }
    o.push('}');
    o
}
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        if let Ok(dir) = std::env::var("BRA_SCAN") {
            let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
            if name == "binread" || name == "binread_derive" {
                let mut v = scan::Scan::new(tcx);
                tcx.hir_walk_toplevel_module(&mut v);
                let l = v.out.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",\n");
                std::fs::write(format!("{}/{}.json", dir, name), format!("[{}]", l)).unwrap();
            }
            return rustc_driver::Compilation::Continue;
        }
        let mut out = String::from("{");
        let mut first = true;
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if tcx.def_kind(d) != DefKind::Fn {
                continue;
            }
            let name = tcx.item_name(d).to_string();
            if !name.starts_with("root__") && !name.starts_with("ref__") {
                continue;
            }
            let Some(mode) = self.cfg.get(&name).or_else(|| self.cfg.get("*")).cloned() else { continue };
            let mut it = Interp::new(tcx);
            it.root_inlines = name.starts_with("root__");
            let s = it.run_root(d, mode);
            if !first {
                out.push_str(",\n");
            }
            first = false;
            out.push_str(&format!("{}:{}", jstr(&name), dump(&it, s)));
        }
        if self.cfg.contains_key("adts") {
            if !first {
                out.push_str(",\n");
            }
            out.push_str(&format!("\"__adts\":{}", adts(tcx)));
        }
        if self.cfg.contains_key("unsafe") {
            let mut v = scan::Scan::new(tcx);
            tcx.hir_walk_toplevel_module(&mut v);
            if !first {
                out.push_str(",\n");
            }
            out.push_str(&format!("\"__unsafe\":[{}]", v.out.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",")));
        }
        out.push('}');
        std::fs::write(&self.out, out).unwrap();
        rustc_driver::Compilation::Stop
    }
}
fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    if let (Ok(r), false) = (std::env::var("BRA_SYSROOT"), args.iter().any(|a| a == "--sysroot")) {
        args.push("--sysroot".into());
        args.push(r);
    }
    let cfg = std::env::var("BRA_CONFIG").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
    let out = std::env::var("BRA_OUT").unwrap_or("/dev/stdout".into());
    let mut cb = Cb { cfg: parse_cfg(&cfg), out };
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
        match rustc_driver::catch_fatal_errors(|| rustc_driver::compiler_entrypoint(&args, &mut cb)) {
            Ok(_) => 0,
            Err(_) => 1,
        }
    });
    let r = h.unwrap().join();
    std::process::exit(r.unwrap_or(2));
}
