//! lsym: symbolic execution of whole-program LLVM IR produced by rustc.
mod exec;
mod intrin;
mod lin;
mod ll;
mod smt;
mod term;
use exec::*;
use std::fmt::Write as _;
use std::io::Read;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn _exit(c: i32) -> !;
}

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn result(m: &Mach, t0: Instant, complete: bool) -> String {
    let mut s = String::from("{");
    let _ = write!(
        s,
        "\"complete\":{},\"paths\":{},\"steps\":{},\"forks\":{},\"merges\":{},\"merge_fail\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"hard\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"checks\":{},\"checks_syntactic\":{},\"unknown_branches\":{},\"unknown_checks\":{},\"lin_checks\":{},\"lin_queries\":{},\"lin_unsat\":{},\"lin_noise\":{},\"lin_abstracted\":{},\"lin_inconclusive\":{},\"lin_s\":{:.3},\"terms\":{},\"vars\":{},\"symvars_max\":{},\"wall_s\":{:.3},\"left\":{}",
        complete,
        m.paths,
        m.steps,
        m.forks,
        m.merges,
        m.merge_fail,
        m.smt.queries,
        m.smt.sat,
        m.smt.unsat,
        m.smt.unknown,
        m.smt.hard,
        m.smt.cache_hits,
        m.smt.secs,
        m.smt.max_q,
        m.checks,
        m.checks_trivial,
        m.unknown_branches,
        m.unknown_checks,
        m.lin_checks,
        m.lin.queries - lin::CACHED.with(|c| c.get()),
        m.lin.unsat,
        m.lin.noise,
        m.lin.abstracted,
        m.lin.inconclusive,
        m.lin.secs,
        m.ar.nodes.len(),
        m.ar.nvars,
        m.symvars_max,
        t0.elapsed().as_secs_f64(),
        m.work.len()
    );
    let _ = write!(s, ",\"ends\":{{{}}}", m.ends.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(s, ",\"covers\":{{{}}}", m.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let _ = write!(s, ",\"errors\":[{}]", m.errors.iter().map(|e| js(e)).collect::<Vec<_>>().join(","));
    let _ = write!(
        s,
        ",\"violations\":[{}]",
        m.viols
            .iter()
            .map(|v| format!(
                "{{\"kind\":{},\"msg\":{},\"inputs\":[{}],\"trace\":[{}]}}",
                js(&v.kind),
                js(&v.msg),
                v.inputs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
                v.trace.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    let _ = write!(s, ",\"outputs\":[{}]", m.outputs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    let _ = write!(
        s,
        ",\"witness\":[{}]",
        m.witness.iter().map(|w| format!("[{}]", w.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")
    );
    let mut fs: Vec<String> = m.funcs.iter().map(|&f| m.m.syms[f as usize].short.clone()).collect();
    fs.sort();
    fs.dedup();
    let _ = write!(s, ",\"functions\":[{}]", fs.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    s.push('}');
    s
}

fn main() {
    let t0 = Instant::now();
    let args: Vec<String> = std::env::args().collect();
    let mut file = None;
    let mut entry = String::new();
    let mut time = 60.0;
    let mut par = 1usize;
    let mut out: Option<String> = None;
    let mut cfg = Config {
        merge: true,
        max_steps: 50_000_000,
        max_alloc: 64 << 20,
        deadline: t0,
        params: vec![],
        inputs: None,
        trace: false,
        max_viol: 1,
        verbose: false,
        merge_limit: 600,
        loop_merge: 20,
    };
    let mut quick_ms = 3000;
    let mut hard_s = 60;
    let mut i = 1;
    while i < args.len() {
        let a = args[i].clone();
        let mut next = || {
            i += 1;
            args[i].clone()
        };
        match a.as_str() {
            "--entry" => entry = next(),
            "--time" => time = next().parse().unwrap(),
            "--par" => par = next().parse().unwrap(),
            "--out" => out = Some(next()),
            "--params" => cfg.params = next().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "--max-steps" => cfg.max_steps = next().parse().unwrap(),
            "--max-alloc" => cfg.max_alloc = next().parse().unwrap(),
            "--max-viol" => cfg.max_viol = next().parse().unwrap(),
            "--quick-ms" => quick_ms = next().parse().unwrap(),
            "--hard-s" => hard_s = next().parse().unwrap(),
            "--no-merge" => cfg.merge = false,
            "--trace" => cfg.trace = true,
            "--merge-limit" => cfg.merge_limit = next().parse().unwrap(),
            "--loop-merge" => cfg.loop_merge = next().parse().unwrap(),
            "--verbose" => cfg.verbose = true,
            "--inputs" => {
                let t = std::fs::read_to_string(next()).unwrap();
                cfg.inputs = Some(t.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect());
            }
            _ => file = Some(a),
        }
        i += 1;
    }
    cfg.deadline = t0 + Duration::from_secs_f64(time);
    let mut src = vec![];
    std::fs::File::open(file.expect("usage: lsym FILE.ll --entry E")).unwrap().read_to_end(&mut src).unwrap();
    let m = ll::Module::load(src);
    let concrete = cfg.inputs.is_some();
    let mut mach = Mach::new(m, cfg);
    mach.smt.quick_ms = quick_ms;
    mach.smt.hard_s = hard_s;
    mach.smt.deadline = Some(t0 + Duration::from_secs_f64(time));
    let st = mach.initial(&entry);
    mach.work.push(st);
    let emit = |s: &str| match &out {
        Some(p) => std::fs::write(p, s).unwrap(),
        None => println!("{}", s),
    };
    if par <= 1 || concrete {
        mach.explore(usize::MAX);
        if mach.prof {
            let mut v: Vec<_> = mach.profile.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for (k, n) in v.iter().take(25) {
                eprintln!("{} {}", n, k);
            }
        }
        let c = mach.work.is_empty();
        emit(&result(&mach, t0, c));
        return;
    }
    mach.explore(par * 24);
    if mach.work.is_empty() || !mach.viols.is_empty() {
        let c = mach.work.is_empty();
        emit(&format!("{{\"shards\":[{}]}}", result(&mach, t0, c)));
        return;
    }
    // split the frontier over forked workers; each starts its own solver
    mach.smt.reset_process();
    let base = format!("{}/lsym-shard-{}", std::env::temp_dir().display(), std::process::id());
    let mut pids = vec![];
    for k in 0..par {
        let pid = unsafe { fork() };
        if pid == 0 {
            let all = std::mem::take(&mut mach.work);
            mach.work = all.into_iter().enumerate().filter(|(i, _)| i % par == k).map(|x| x.1).collect();
            if k > 0 {
                // statistics of the common prefix are reported once
                mach.paths = 0;
                mach.steps = 0;
                mach.forks = 0;
                mach.merges = 0;
                mach.ends.clear();
                mach.checks = 0;
                mach.checks_trivial = 0;
                mach.smt.queries = 0;
                mach.smt.sat = 0;
                mach.smt.unsat = 0;
                mach.smt.secs = 0.0;
                mach.smt.cache_hits = 0;
                mach.covers.clear();
                mach.witness.clear();
                mach.errors.clear();
            }
            mach.explore(usize::MAX);
            let c = mach.work.is_empty();
            std::fs::write(format!("{}-{}", base, k), result(&mach, t0, c)).unwrap();
            mach.smt.reset_process();
            unsafe { _exit(0) };
        }
        pids.push(pid);
    }
    let mut parts = vec![];
    for (k, pid) in pids.into_iter().enumerate() {
        let mut s = 0;
        unsafe { waitpid(pid, &mut s, 0) };
        let f = format!("{}-{}", base, k);
        match std::fs::read_to_string(&f) {
            Ok(t) => parts.push(t),
            Err(_) => parts.push("{\"complete\":false,\"errors\":[\"worker died\"]}".into()),
        }
        let _ = std::fs::remove_file(&f);
    }
    emit(&format!("{{\"shards\":[{}]}}", parts.join(",")));
}
