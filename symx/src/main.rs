mod exec;
mod expr;
mod ir;
mod mem;
mod prims;
mod shared;
mod solver;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

fn write_result(x: &exec::Exec, dir: &str, t0: Instant, left: &[(u32, u64)]) {
    let mut o = String::from("{");
    let s = &x.st;
    let _ = write!(
        o,
        "\"wall\":{:.3},\"paths\":{},\"insts\":{},\"forks\":{},\"checks\":{},\"check_queries\":{},\"panics\":{},\"pruned\":{},\"prim_sym\":{},\"prim_conc\":{},\"realised\":{}",
        t0.elapsed().as_secs_f64(), s.paths, s.insts, s.forks, s.checks, s.check_queries, s.panics, s.pruned, s.prim_sym, s.prim_conc, s.realised
    );
    let q = &x.s;
    let _ = write!(
        o,
        ",\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3}",
        q.queries, q.cache_hits, q.sat, q.unsat, q.unknown, q.time, q.max_time
    );
    let mut seen: BTreeMap<(u32, String), u64> = BTreeMap::new();
    for (j, i) in &x.incomplete {
        *seen.entry((*j, i.clone())).or_insert(0) += 1;
    }
    for (j, n) in left {
        *seen.entry((*j, "time budget exhausted".into())).or_insert(0) += n;
    }
    let v: Vec<String> = seen.iter().take(40).map(|((j, s), n)| format!("[{},{},{}]", j, js(s), n)).collect();
    let _ = write!(o, ",\"incomplete\":[{}]", v.join(","));
    let v: Vec<String> = x
        .viols
        .iter()
        .map(|v| {
            format!(
                "{{\"job\":{},\"kind\":{},\"what\":{},\"at\":{},\"real\":{},\"log\":{}}}",
                v.job,
                js(&v.kind),
                js(&v.what),
                js(&v.at),
                v.real,
                jl(&v.log)
            )
        })
        .collect();
    let _ = write!(o, ",\"viols\":[{}]", v.join(","));
    let v: Vec<String> = x
        .samples
        .iter()
        .map(|v| {
            format!(
                "{{\"job\":{},\"end\":{},\"real\":{},\"log\":{},\"obs\":{}}}",
                v.job,
                js(&v.end),
                v.real,
                jl(&v.log),
                jl(&v.obs)
            )
        })
        .collect();
    let _ = write!(o, ",\"samples\":[{}]", v.join(","));
    let v: Vec<String> = x.covers.iter().map(|((j, k), n)| format!("[{},{},{}]", j, k, n)).collect();
    let _ = write!(o, ",\"covers\":[{}]", v.join(","));
    let v: Vec<String> =
        x.check_names.iter().map(|((j, k), (n, b))| format!("[{},{},{},{}]", j, js(k), n, b)).collect();
    let _ = write!(o, ",\"check_names\":[{}]", v.join(","));
    let v: Vec<String> = x.end_kinds.iter().map(|((j, k), n)| format!("[{},{},{}]", j, js(k), n)).collect();
    let _ = write!(o, ",\"ends\":[{}]}}", v.join(","));
    let tmp = format!("{}/tmp.{}", dir, shared::pid());
    let fin = format!("{}/res.{}.json", dir, shared::pid());
    if std::fs::write(&tmp, o).and_then(|_| std::fs::rename(&tmp, &fin)).is_err() {
        eprintln!("cannot write results");
        shared::exit(3);
    }
}

fn coverage(m: &ir::Module, dir: &str, root: &str) {
    let mut fns: BTreeMap<String, bool> = BTreeMap::new();
    let mut lines: BTreeMap<(String, u32), bool> = BTreeMap::new();
    let mut seen: BTreeMap<u32, bool> = BTreeMap::new();
    for f in &m.funcs {
        for (bi, b) in f.blocks.iter().enumerate() {
            let c = shared::covered(f.blk_base as usize + bi);
            for i in &b.insts {
                if i.dbg != 0 {
                    *seen.entry(i.dbg).or_insert(false) |= c;
                }
            }
        }
    }
    let mut all: BTreeMap<u32, bool> = BTreeMap::new();
    for (d, c) in seen {
        for x in m.chain(d) {
            *all.entry(x).or_insert(false) |= c;
        }
    }
    for (d, c) in all {
        if let Some((file, line, f)) = m.locate(d) {
            if let Some(rel) = file.strip_prefix(root) {
                if line != 0 {
                    *lines.entry((rel.trim_start_matches('/').to_string(), line)).or_insert(false) |= c;
                }
                *fns.entry(f).or_insert(false) |= c;
            }
        }
    }
    let mut per: BTreeMap<String, (BTreeSet<u32>, BTreeSet<u32>)> = BTreeMap::new();
    for ((f, l), c) in &lines {
        let e = per.entry(f.clone()).or_default();
        if *c {
            e.0.insert(*l);
        } else {
            e.1.insert(*l);
        }
    }
    let mut o = String::from("{\"functions\":{");
    let v: Vec<String> = fns.iter().map(|(f, c)| format!("{}:{}", js(f), c)).collect();
    o.push_str(&v.join(","));
    o.push_str("},\"files\":{");
    let v: Vec<String> = per
        .iter()
        .map(|(f, (a, b))| {
            let g = |s: &BTreeSet<u32>| s.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
            format!("{}:{{\"covered\":[{}],\"missed\":[{}]}}", js(f), g(a), g(b))
        })
        .collect();
    o.push_str(&v.join(","));
    o.push_str("}}");
    let _ = std::fs::write(format!("{}/coverage.json", dir), o);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut out = String::new();
    let mut procs = 8;
    let mut budget = 600.0f64;
    let mut solver = "z3 -in".to_string();
    let mut jobs: Vec<(String, Vec<u64>)> = vec![];
    let mut trace = false;
    let mut keep = 40;
    let mut root = "/repo".to_string();
    let mut max_steps = 200_000_000u64;
    let mut max_enum = 300;
    let mut i = 1;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--ll" => ll = v,
            "--out" => out = v,
            "--procs" => procs = v.parse().unwrap(),
            "--budget" => budget = v.parse().unwrap(),
            "--solver" => solver = v,
            "--keep" => keep = v.parse().unwrap(),
            "--root" => root = v,
            "--steps" => max_steps = v.parse().unwrap(),
            "--enum" => max_enum = v.parse().unwrap(),
            "--job" => {
                let mut it = v.splitn(2, ':');
                let n = it.next().unwrap().to_string();
                let ps = it.next().unwrap_or("").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
                jobs.push((n, ps));
            }
            "--trace" => {
                trace = true;
                i += 1;
                continue;
            }
            o => {
                eprintln!("unknown option {}", o);
                std::process::exit(2);
            }
        }
        i += 2;
    }
    let t0 = Instant::now();
    let src = std::fs::read(&ll).expect("cannot read the module");
    let mut p = expr::Pool::new();
    let m = match ir::Module::load(&mut p, &src) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("parse: {}", e);
            std::process::exit(2)
        }
    };
    drop(src);
    shared::init(procs - 1, m.nblocks as usize);
    let o = exec::Opts {
        max_steps,
        params: jobs.iter().map(|j| j.1.clone()).collect(),
        max_enum,
        max_viol: 2,
        keep,
        trace,
    };
    let mut x = exec::Exec::new(p, m, &solver, o);
    x.deadline = t0 + Duration::from_secs_f64(budget);
    x.s.deadline = Some(x.deadline);
    for (i, j) in jobs.iter().enumerate().rev() {
        match x.initial(i as u32, &j.0) {
            Ok(s) => x.work.push(s),
            Err(e) => {
                eprintln!("{}", e);
                std::process::exit(2)
            }
        }
    }
    let mut child = false;
    let mut t1 = Instant::now();
    loop {
        while x.work.len() >= 2 && shared::tokens() > 0 && !shared::stopped() && shared::take_token() {
            // hand the older half of the pending states to a new process
            let n = x.work.len() / 2;
            match shared::do_fork() {
                0 => {
                    child = true;
                    t1 = Instant::now();
                    x.s.forget();
                    x.work.truncate(n);
                    x.reset_results();
                }
                r if r > 0 => {
                    x.work.drain(..n);
                }
                _ => shared::give_token(),
            }
        }
        if shared::stopped() || Instant::now() > x.deadline {
            break;
        }
        let s = match x.work.pop() {
            Some(s) => s,
            None => break,
        };
        x.run(s);
        if x.viols.iter().filter(|v| v.real).count() >= 3 {
            shared::stop();
        }
    }
    let mut left: BTreeMap<u32, u64> = BTreeMap::new();
    if !shared::stopped() {
        for s in &x.work {
            *left.entry(s.job).or_insert(0) += 1;
        }
    }
    let left: Vec<(u32, u64)> = left.into_iter().collect();
    shared::cover(&x.cover_blk);
    write_result(&x, &out, t1, &left);
    x.s.shutdown();
    if child {
        shared::give_token();
        shared::exit(0);
    }
    let bad = shared::wait_all();
    coverage(&x.m, &out, &root);
    let _ = std::fs::write(
        format!("{}/root.json", out),
        format!("{{\"wall\":{:.3},\"bad_processes\":{},\"functions_in_module\":{},\"stopped_early\":{}}}", t0.elapsed().as_secs_f64(), bad, x.m.funcs.iter().filter(|f| f.defined).count(), shared::stopped()),
    );
    std::process::exit(if bad > 0 { 3 } else { 0 });
}
