mod exec;
mod expr;
mod fx;
mod instr;
mod ir;
mod live;
mod mem;
mod solver;
use exec::*;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: irsym run FILE.ll FUNCTION [--out F] [--secs S] [--steps N] [--paths N] [--preempt K] [--heavy] [--timeout MS] [-v]\n       irsym instrument IN.ll OUT.ll");
        std::process::exit(2);
    }
    if args[1] == "instrument" {
        if let Err(e) = instr::instrument(&args[2], &args[3]) {
            eprintln!("{e}");
            std::process::exit(2);
        }
        return;
    }
    let child = std::thread::Builder::new().stack_size(1 << 30).spawn(move || real(args)).unwrap();
    std::process::exit(child.join().unwrap_or(3));
}

fn real(args: Vec<String>) -> i32 {
    let mut opts =
        Opts { max_paths: u64::MAX, max_steps: 20_000_000, max_secs: 600.0, preempt: -1, max_viol: 8, verbose: false, no_merge_b: false, part: 0, stub: true };
    let mut out = None;
    let mut heavy = false;
    let mut timeout = 60000;
    let mut i = 4;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--out" => out = Some(v),
            "--secs" => opts.max_secs = v.parse().unwrap(),
            "--steps" => opts.max_steps = v.parse().unwrap(),
            "--paths" => opts.max_paths = v.parse().unwrap(),
            "--preempt" => opts.preempt = v.parse().unwrap(),
            "--maxviol" => opts.max_viol = v.parse().unwrap(),
            "--timeout" => timeout = v.parse().unwrap(),
            "--heavy" => {
                heavy = true;
                i += 1;
                continue;
            }
            "--no-merge-b" => {
                opts.no_merge_b = true;
                i += 1;
                continue;
            }
            "--no-stub" => {
                opts.stub = false;
                i += 1;
                continue;
            }
            "--part" => opts.part = v.parse().unwrap(),
            "-v" => {
                opts.verbose = true;
                i += 1;
                continue;
            }
            x => {
                eprintln!("unknown option {x}");
                return 2;
            }
        }
        i += 2;
    }
    let m = match ir::Module::load(&args[2]) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    let t0 = std::time::Instant::now();
    let mut e = Eng::new(&m, opts, heavy, timeout);
    let r = e.explore(&args[3]);
    if let Err(x) = &r {
        e.fatal = Some(x.clone());
    }
    let status = if e.fatal.is_some() {
        "error"
    } else if !e.viols.is_empty() {
        "violation"
    } else if e.incomplete.is_some() {
        "incomplete"
    } else {
        "ok"
    };
    let s = &e.st;
    let q = &e.sol.stats;
    let mut o = String::new();
    let _ = write!(o, "{{\"scenario\":{},\"status\":{}", js(&args[3]), js(status));
    let _ = write!(o, ",\"reason\":{}", js(&e.fatal.clone().or(e.incomplete.clone()).unwrap_or_default()));
    let _ = write!(
        o,
        ",\"paths\":{},\"infeasible\":{},\"forks\":{},\"steps\":{},\"asserts\":{},\"asserts_by_solver\":{},\"memory_checks\":{},\"time_variables\":{},\"restricted\":{},\"switches\":{},\"rounds\":{},\"writer_log\":{},\"conflict_words\":{},\"expected_panics\":{},\"merged\":{},\"merge_points\":{},\"time_splits\":{}",
        s.paths, s.dead, s.forks, s.steps, s.asserts, s.asserts_solver, s.memchecks, s.tvars, s.restricted, s.switches, s.rounds, s.max_log, e.conflict.len(), s.panics_expected, s.merged, s.merge_points, s.time_splits
    );
    let _ = write!(
        o,
        ",\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"wall_s\":{:.3},\"nodes\":{},\"peak_mb\":{}",
        q.queries, q.sat, q.unsat, q.unknown, q.secs, q.max_secs, t0.elapsed().as_secs_f64(), e.cx.nodes.len(), exec::peak_mb()
    );
    let cov: Vec<String> = s.covers.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
    let _ = write!(o, ",\"covers\":{{{}}}", cov.join(","));
    let fs: std::collections::BTreeSet<String> = s.funcs.iter().map(|f| demangle(f)).collect();
    let fs: Vec<String> = fs.iter().map(|f| js(f)).collect();
    let _ = write!(o, ",\"functions\":[{}]", fs.join(","));
    let jin = |i: &Vec<(String, Vec<u128>)>| -> String {
        let x: Vec<String> = i
            .iter()
            .map(|(n, e)| {
                format!("[{},[{}]]", js(n), e.iter().map(|k| format!("\"{k:x}\"")).collect::<Vec<_>>().join(","))
            })
            .collect();
        x.join(",")
    };
    let jsg = |s: &Vec<(usize, u64)>| -> String {
        let x: Vec<String> =
            s.iter().map(|(t, h)| if *h == u64::MAX { format!("[{t},-1]") } else { format!("[{t},{h}]") }).collect();
        x.join(",")
    };
    let sm: Vec<String> = s
        .samples
        .iter()
        .map(|f| {
            format!(
                "{{\"inputs\":[{}],\"schedule\":[{}],\"asserts\":{},\"panics\":{}}}",
                jin(&f.inputs),
                jsg(&f.segs),
                f.asserts,
                f.panics
            )
        })
        .collect();
    let _ = write!(o, ",\"samples\":[{}]", sm.join(","));
    let mut vs = vec![];
    for v in &e.viols {
        let mut x = String::new();
        let _ = write!(x, "{{\"kind\":{},\"id\":{},\"at\":{},\"detail\":{}", js(&v.kind), v.id, js(&v.at), js(&v.detail));
        let tr: Vec<String> = v.trace.iter().map(|f| js(f)).collect();
        let _ = write!(x, ",\"trace\":[{}]", tr.join(","));
        let _ = write!(x, ",\"inputs\":[{}],\"schedule\":[{}]}}", jin(&v.inputs), jsg(&v.segs));
        vs.push(x);
    }
    let _ = write!(o, ",\"violations\":[{}]}}", vs.join(","));
    match out {
        Some(f) => {
            if std::fs::write(&f, &o).is_err() {
                return 2;
            }
        }
        None => println!("{o}"),
    }
    match status {
        "ok" => 0,
        "violation" => 1,
        _ => 2,
    }
}
