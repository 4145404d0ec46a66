//! Compiler driver: analyses every obligation function (`ob_*`) of the crate being compiled.
use crate::bdd::Budget;
use crate::interp::*;
use rustc_hir::def::DefKind;
use rustc_middle::ty::{self, Instance, TyCtxt};
use std::fmt::Write as _;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
}

struct Cb;

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn env_or(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

fn epoch() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_secs())
}

fn analyse<'tcx>(cx: &mut Ctx<'tcx>, name: &str, inst: Instance<'tcx>) -> String {
    let limit = env_or("BITFLOW_NODES", 30_000_000) as usize;
    let secs = env_or("BITFLOW_SECS", 300);
    cx.reset(limit);
    let left = env_or("BITFLOW_UNTIL", u64::MAX).saturating_sub(epoch());
    cx.deadline = Instant::now() + Duration::from_secs(secs.min(left));
    cx.block_limit = env_or("BITFLOW_BLOCKS", 100_000_000) as _;
    let t0 = Instant::now();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cx.run_root(inst)));
    let mut why = String::new();
    let status = match r {
        Ok(Ok(())) => "analysed",
        Ok(Err(e)) => {
            why = e;
            if let Some(f) = cx.stack.last() {
                let _ = write!(why, " (in {} at {})", f.name, cx.span_str(f.span));
            }
            "undecided"
        }
        Err(p) => {
            why = if p.downcast_ref::<Budget>().is_some() {
                "decision-diagram size cap".into()
            } else if let Some(s) = p.downcast_ref::<String>() {
                format!("analyser failure: {s}")
            } else if let Some(s) = p.downcast_ref::<&str>() {
                format!("analyser failure: {s}")
            } else {
                "analyser failure".into()
            };
            if let Some(f) = cx.stack.last() {
                let _ = write!(why, " (in {} at {})", f.name, cx.span_str(f.span));
            }
            "undecided"
        }
    };
    if std::env::var("BITFLOW_TRACE").is_ok() {
        for f in &cx.stack {
            eprintln!("   {} {}", f.name, cx.span_str(f.span));
        }
    }
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"root\":{},\"status\":\"{}\",\"why\":{},\"secs\":{:.3},\"nodes\":{},\"blocks\":{},\"calls\":{},\"checks\":{},\"events\":[",
        js(name),
        status,
        js(&why),
        t0.elapsed().as_secs_f64(),
        cx.b.len(),
        cx.blocks,
        cx.calls,
        cx.checks
    );
    let mut seen = std::collections::BTreeSet::new();
    let mut first = true;
    for e in std::mem::take(&mut cx.events) {
        let mut wit = String::new();
        for (i, (v, val)) in cx.b.witness(e.pc).into_iter().enumerate() {
            if i > 0 {
                wit.push(',');
            }
            let _ = write!(wit, "{}:{}", js(&cx.b.names[v as usize]), val as u8);
        }
        let inner = e.stack.iter().rev().find(|f| f.krate == cx.subject).or(e.stack.last());
        let func = inner.map(|f| f.name.clone()).unwrap_or_default();
        let site = inner.map(|f| cx.span_str(f.span)).unwrap_or_default();
        let key = format!("{}|{}|{}", e.kind, func, e.msg.split(" [").next().unwrap_or(""));
        if !seen.insert(key.clone()) {
            continue;
        }
        if !first {
            o.push(',');
        }
        first = false;
        let st: Vec<String> =
            e.stack.iter().map(|f| js(&format!("{} @ {}", f.name, cx.span_str(f.span)))).collect();
        let _ = write!(
            o,
            "{{\"kind\":{},\"msg\":{},\"func\":{},\"site\":{},\"key\":{},\"witness\":{{{}}},\"stack\":[{}]}}",
            js(e.kind),
            js(&e.msg),
            js(&func),
            js(&site),
            js(&key),
            wit,
            st.join(",")
        );
    }
    let cov: Vec<String> = cx.covers.iter().filter(|c| *c.1 != crate::bdd::F).map(|c| js(c.0)).collect();
    let _ = write!(o, "],\"covers\":[{}]}}", cov.join(","));
    o
}

fn roots<'tcx>(tcx: TyCtxt<'tcx>) -> Vec<(String, Instance<'tcx>)> {
    let filter = std::env::var("BITFLOW_ROOTS").unwrap_or_default();
    let mut v = vec![];
    for d in tcx.hir_crate_items(()).definitions() {
        let d = d.to_def_id();
        if tcx.def_kind(d) != DefKind::Fn {
            continue;
        }
        let n = tcx.item_name(d).to_string();
        if !n.starts_with("ob_") || tcx.generics_of(d).requires_monomorphization(tcx) {
            continue;
        }
        let p = tcx.def_path_str(d);
        if filter.is_empty() || filter.split(',').any(|f| p.contains(f)) {
            v.push((p, Instance::new_raw(d, ty::GenericArgs::identity_for_item(tcx, d))));
        }
    }
    v
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        if let (Ok(f), true) = (std::env::var("BITFLOW_LISTFNS"), tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str() == "midi2") {
            let mut v: Vec<String> = vec![];
            for d in tcx.mir_keys(()) {
                if matches!(tcx.def_kind(*d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                    v.push(format!("{}\t{}\t{}", tcx.def_path(d.to_def_id()).to_string_no_crate_verbose(), tcx.def_path_str(d.to_def_id()), tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(d.to_def_id()))));
                }
            }
            std::fs::write(f, v.join("\n")).unwrap();
        }
        let Ok(out) = std::env::var("BITFLOW_OUT") else {
            return rustc_driver::Compilation::Continue;
        };
        if tcx.dcx().has_errors().is_some() {
            return rustc_driver::Compilation::Stop;
        }
        let rs = roots(tcx);
        let jobs = env_or("BITFLOW_JOBS", 8).min(rs.len().max(1) as u64) as usize;
        std::fs::write(
            format!("{out}.list"),
            rs.iter().map(|r| r.0.clone()).collect::<Vec<_>>().join("\n"),
        )
        .unwrap();
        std::panic::set_hook(Box::new(|i| {
            if i.payload().downcast_ref::<Budget>().is_none() {
                eprintln!("analyser panic: {i}");
            }
        }));
        let effects = std::env::var("BITFLOW_EFFECTS").is_ok();
        let subject = std::env::var("BITFLOW_SUBJECT").unwrap_or_else(|_| "midi2".into());
        unsafe {
            let mut fds = [0i32; 2];
            pipe(fds.as_mut_ptr());
            let mut kids = vec![];
            for w in 0..jobs {
                let pid = fork();
                if pid == 0 {
                    close(fds[1]);
                    let mut cx = Ctx::new(tcx, 1000);
                    cx.subject = subject.clone();
                    let path = format!("{out}.{w}");
                    let mut file = std::fs::File::create(&path).unwrap();
                    loop {
                        let mut b = [0u8; 4];
                        if read(fds[0], b.as_mut_ptr(), 4) != 4 {
                            break;
                        }
                        let i = u32::from_le_bytes(b) as usize;
                        if epoch() > env_or("BITFLOW_UNTIL", u64::MAX) {
                            continue; // out of time: the rest is reported as not finished
                        }
                        let line = if effects { crate::effects::effects(tcx, &rs[i].0, rs[i].1, &mut cx.visited) } else { analyse(&mut cx, &rs[i].0, rs[i].1) };
                        let _ = std::io::Write::write_all(&mut file, format!("{line}\n").as_bytes());
                    }
                    let vis: Vec<String> = cx.visited.iter().map(|s| js(s)).collect();
                    let _ = std::io::Write::write_all(&mut file, format!("{{\"visited\":[{}]}}\n", vis.join(",")).as_bytes());
                    drop(file);
                    _exit(0);
                }
                kids.push(pid);
            }
            close(fds[0]);
            // the longest first
            let mut order: Vec<u32> = (0..rs.len() as u32).collect();
            order.sort_by_key(|i| !rs[*i as usize].0.contains("_vast"));
            for i in order {
                write(fds[1], i.to_le_bytes().as_ptr(), 4);
            }
            close(fds[1]);
            for k in kids {
                let mut s = 0;
                waitpid(k, &mut s, 0);
            }
        }
        rustc_driver::Compilation::Stop
    }
}

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    rustc_driver::install_ice_hook("", |_| ());
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
