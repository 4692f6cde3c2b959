//! SMT solver process (SMT-LIB2 over a pipe), QF_BV.
use crate::expr::*;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[repr(C)]
struct PollFd {
    fd: i32,
    events: i16,
    revents: i16,
}
extern "C" {
    fn poll(p: *mut PollFd, n: u64, ms: i32) -> i32;
}

/// Seconds for a query in the incremental process, then in a fresh one.
const FIRST_S: f64 = 8.0;
const SECOND_S: f64 = 60.0;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

pub struct Solver {
    cmd: Vec<String>,
    child: Option<Child>,
    inp: Option<ChildStdin>,
    out: Option<BufReader<ChildStdout>>,
    emitted: Vec<bool>,
    declared: HashMap<u32, u32>,
    cache: HashMap<Vec<E>, (Sat, Vec<(u32, u128)>)>,
    pub queries: u64,
    pub cache_hits: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub buf: String,
    since_restart: u64,
    until: Option<Instant>,
    pub deadline: Option<Instant>,
    pub retried: u64,
}

impl Solver {
    pub fn new(cmd: &str) -> Solver {
        Solver {
            cmd: cmd.split_whitespace().map(|s| s.to_string()).collect(),
            child: None,
            inp: None,
            out: None,
            emitted: vec![],
            declared: HashMap::new(),
            cache: HashMap::new(),
            queries: 0,
            cache_hits: 0,
            unsat: 0,
            sat: 0,
            unknown: 0,
            time: 0.0,
            max_time: 0.0,
            buf: String::new(),
            since_restart: 0,
            until: None,
            deadline: None,
            retried: 0,
        }
    }
    pub fn shutdown(&mut self) {
        if let Some(mut c) = self.child.take() {
            self.inp.take();
            self.out.take();
            let _ = c.kill();
            let _ = c.wait();
        }
        self.emitted.clear();
        self.declared.clear();
        self.buf.clear();
        self.since_restart = 0;
    }
    pub fn reset_counters(&mut self) {
        self.queries = 0;
        self.cache_hits = 0;
        self.sat = 0;
        self.unsat = 0;
        self.unknown = 0;
        self.time = 0.0;
        self.max_time = 0.0;
    }
    /// after fork(): forget the parent's process without killing it
    pub fn forget(&mut self) {
        std::mem::forget(self.child.take());
        std::mem::forget(self.inp.take());
        std::mem::forget(self.out.take());
        self.emitted.clear();
        self.declared.clear();
        self.buf.clear();
        self.since_restart = 0;
    }
    fn start(&mut self) {
        let mut c = Command::new(&self.cmd[0])
            .args(&self.cmd[1..])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start solver");
        self.inp = c.stdin.take();
        self.out = Some(BufReader::new(c.stdout.take().unwrap()));
        self.child = Some(c);
        self.emitted.clear();
        self.declared.clear();
        self.buf.clear();
        self.buf.push_str("(set-option :print-success false)\n(set-option :produce-models true)\n(set-logic QF_BV)\n");
    }
    fn kconst(w: u32, k: u128) -> String {
        if w % 4 == 0 {
            format!("#x{:0width$x}", k, width = (w / 4) as usize)
        } else {
            format!("#b{:0width$b}", k, width = w as usize)
        }
    }
    fn term(&self, p: &Pool, e: E) -> String {
        let n = p.n(e);
        match n.op {
            Op::Const => Self::kconst(n.w, n.k),
            Op::Var => format!("v{}", n.a),
            _ => format!("e{}", e),
        }
    }
    fn emit(&mut self, p: &Pool, e: E) {
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            let xi = x as usize;
            if self.emitted.len() <= xi {
                self.emitted.resize(xi + 1024, false);
            }
            if self.emitted[xi] {
                continue;
            }
            let n = p.n(x);
            match n.op {
                Op::Const => {
                    self.emitted[xi] = true;
                    continue;
                }
                Op::Var => {
                    if self.declared.insert(n.a, n.w).is_none() {
                        self.buf.push_str(&format!("(declare-const v{} (_ BitVec {}))\n", n.a, n.w));
                    }
                    self.emitted[xi] = true;
                    continue;
                }
                _ => {}
            }
            let kids: [E; 3] = match n.op {
                Op::Extract | Op::SExt | Op::Bound => [n.a, 0, 0],
                Op::Ite => [n.a, n.b, n.c],
                _ => [n.a, n.b, 0],
            };
            if !done {
                stack.push((x, true));
                for k in kids {
                    if k != 0 {
                        stack.push((k, false));
                    }
                }
                continue;
            }
            let a = self.term(p, n.a);
            let body = match n.op {
                Op::Extract => format!("((_ extract {} {}) {})", n.c + n.w - 1, n.c, a),
                Op::Bound => a,
                Op::SExt => format!("((_ sign_extend {}) {})", n.w - p.w(n.a), a),
                Op::Ite => {
                    format!("(ite (= {} #b1) {} {})", a, self.term(p, n.b), self.term(p, n.c))
                }
                _ => {
                    let b = self.term(p, n.b);
                    match n.op {
                        Op::Eq => format!("(ite (= {} {}) #b1 #b0)", a, b),
                        Op::Ult => format!("(ite (bvult {} {}) #b1 #b0)", a, b),
                        Op::Ule => format!("(ite (bvule {} {}) #b1 #b0)", a, b),
                        Op::Slt => format!("(ite (bvslt {} {}) #b1 #b0)", a, b),
                        Op::Sle => format!("(ite (bvsle {} {}) #b1 #b0)", a, b),
                        o => {
                            let s = match o {
                                Op::Add => "bvadd",
                                Op::Sub => "bvsub",
                                Op::Mul => "bvmul",
                                Op::UDiv => "bvudiv",
                                Op::SDiv => "bvsdiv",
                                Op::URem => "bvurem",
                                Op::SRem => "bvsrem",
                                Op::Shl => "bvshl",
                                Op::LShr => "bvlshr",
                                Op::AShr => "bvashr",
                                Op::And => "bvand",
                                Op::Or => "bvor",
                                Op::Xor => "bvxor",
                                Op::Concat => "concat",
                                _ => unreachable!(),
                            };
                            format!("({} {} {})", s, a, b)
                        }
                    }
                }
            };
            self.buf.push_str(&format!("(define-fun e{} () (_ BitVec {}) {})\n", x, n.w, body));
            self.emitted[xi] = true;
        }
    }
    /// Is the conjunction satisfiable? On sat, values of every variable in it.
    pub fn check(&mut self, p: &mut Pool, mut cs: Vec<E>) -> (Sat, Vec<(u32, u128)>) {
        cs.sort_unstable();
        cs.dedup();
        cs.retain(|&c| p.is_const(c) != Some(1));
        if cs.iter().any(|&c| p.is_const(c) == Some(0)) {
            return (Sat::Unsat, vec![]);
        }
        if cs.is_empty() {
            return (Sat::Sat, vec![]);
        }
        if let Some(r) = self.cache.get(&cs) {
            self.cache_hits += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        if self.deadline.is_some_and(|d| t0 > d) {
            self.unknown += 1;
            return (Sat::Unknown, vec![]);
        }
        let (mut res, mut vals) = self.attempt(p, &cs, true);
        if res == Sat::Unknown {
            self.retried += 1;
            (res, vals) = self.attempt(p, &cs, false);
            self.shutdown();
        }
        let dt = t0.elapsed().as_secs_f64();
        if dt > 1.0 && std::env::var("SYMX_DUMP").is_ok() {
            let mut o = Solver::new("x");
            for &c in &cs {
                o.emit(p, c);
            }
            for &c in &cs {
                let t = o.term(p, c);
                o.buf.push_str(&format!("(assert (= {} #b1))\n", t));
            }
            let f = format!("/tmp/q/{}-{}-{:.1}-{:?}.smt2", std::process::id(), self.queries, dt, res);
            let _ = std::fs::write(f, format!("(set-logic QF_BV)\n{}(check-sat)\n", o.buf));
        }
        self.time += dt;
        self.max_time = self.max_time.max(dt);
        self.queries += 1;
        match res {
            Sat::Sat => self.sat += 1,
            Sat::Unsat => self.unsat += 1,
            Sat::Unknown => self.unknown += 1,
        }
        self.cache.insert(cs, (res, vals.clone()));
        (res, vals)
    }
    fn attempt(&mut self, p: &mut Pool, cs: &[E], incremental: bool) -> (Sat, Vec<(u32, u128)>) {
        if self.since_restart > 4000 || !incremental {
            self.shutdown();
        }
        if self.child.is_none() {
            self.start();
        }
        self.since_restart += 1;
        let mut sup: Vec<u64> = vec![];
        for &c in cs {
            self.emit(p, c);
            let s = p.support(c);
            if sup.len() < s.len() {
                sup.resize(s.len(), 0);
            }
            for (i, v) in s.iter().enumerate() {
                sup[i] |= v;
            }
        }
        // without push the solver is free to use its one-shot procedure
        if incremental {
            self.buf.push_str("(push 1)\n");
        }
        let u = Instant::now() + std::time::Duration::from_secs_f64(if incremental { FIRST_S } else { SECOND_S });
        self.until = Some(self.deadline.map_or(u, |d| u.min(d)));
        for &c in cs {
            let t = self.term(p, c);
            self.buf.push_str(&format!("(assert (= {} #b1))\n", t));
        }
        self.buf.push_str("(check-sat)\n");
        let r = self.roundtrip_line();
        let mut vals = vec![];
        let res = match r.as_deref() {
            Some("sat") => {
                let mut ids = vec![];
                for (i, v) in sup.iter().enumerate() {
                    for b in 0..64 {
                        if v >> b & 1 == 1 {
                            ids.push((i * 64 + b) as u32);
                        }
                    }
                }
                let q: Vec<String> = ids.iter().map(|i| format!("v{}", i)).collect();
                self.buf.push_str(&format!("(get-value ({}))\n", q.join(" ")));
                match self.read_values(ids.len()) {
                    Some(v) => {
                        vals = v;
                        Sat::Sat
                    }
                    None => Sat::Unknown,
                }
            }
            Some("unsat") => Sat::Unsat,
            _ => Sat::Unknown,
        };
        if res == Sat::Unknown {
            // a solver in an unknown state is not reused
            self.shutdown();
        } else if incremental {
            self.buf.push_str("(pop 1)\n");
        }
        (res, vals)
    }
    fn roundtrip_line(&mut self) -> Option<String> {
        let i = self.inp.as_mut()?;
        if i.write_all(self.buf.as_bytes()).is_err() || i.flush().is_err() {
            return None;
        }
        self.buf.clear();
        self.line().map(|s| s.trim().to_string())
    }
    /// One line of output, or nothing when the time is up.
    fn line(&mut self) -> Option<String> {
        use std::os::fd::AsRawFd;
        let o = self.out.as_mut()?;
        if !o.buffer().contains(&b'\n') {
            let left = match self.until {
                Some(u) => u.saturating_duration_since(Instant::now()).as_millis() as i32 + 1,
                None => -1,
            };
            let mut f = PollFd { fd: o.get_ref().as_raw_fd(), events: 1, revents: 0 };
            if unsafe { poll(&mut f, 1, left) } <= 0 {
                return None;
            }
        }
        let mut s = String::new();
        match o.read_line(&mut s) {
            Ok(n) if n > 0 => Some(s),
            _ => None,
        }
    }
    fn read_values(&mut self, n: usize) -> Option<Vec<(u32, u128)>> {
        let mut text = self.roundtrip_line()?;
        let bal = |s: &str| s.matches('(').count() as i64 - s.matches(')').count() as i64;
        let mut depth = bal(&text);
        while depth > 0 {
            let s = self.line()?;
            depth += bal(&s);
            text.push(' ');
            text.push_str(s.trim());
        }
        if text.contains("error") {
            eprintln!("solver: {}", text);
            return None;
        }
        let mut res = vec![];
        let toks: Vec<&str> = text
            .split(|c: char| c == '(' || c == ')' || c.is_whitespace())
            .filter(|s| !s.is_empty())
            .collect();
        let mut i = 0;
        while i + 1 < toks.len() {
            let id: u32 = toks[i].strip_prefix('v')?.parse().ok()?;
            let v = toks[i + 1];
            let k = if let Some(h) = v.strip_prefix("#x") {
                u128::from_str_radix(h, 16).ok()?
            } else if let Some(b) = v.strip_prefix("#b") {
                u128::from_str_radix(b, 2).ok()?
            } else {
                return None;
            };
            res.push((id, k));
            i += 2;
        }
        if res.len() != n {
            return None;
        }
        Some(res)
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        self.shutdown();
    }
}
