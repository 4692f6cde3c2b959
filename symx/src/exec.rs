//! The symbolic executor proper.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::prims;
use crate::solver::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Log {
    Bytes(String, u32, u32), // name, first variable, count
    Choose(u64, u64),        // n, value
}
#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub blk: u32,
    pub pc: u32,
    pub regs: Vec<Val>,
    pub fobj: u64,
    pub ret_dst: u32,
    pub ret_blk: u32, // invoke normal destination, NONE for a plain call
}
#[derive(Clone)]
pub struct HashCall {
    pub alg: u64,
    pub inp: Rc<SB>,
    pub out: Rc<SB>,
}
#[derive(Clone)]
pub struct BlockCall {
    pub alg: u64,
    pub key: Rc<SB>,
    pub x: Rc<SB>,
    pub y: Rc<SB>,
}
#[derive(Clone)]
pub struct KsCall {
    pub alg: u64,
    pub key: Rc<SB>,
    pub iv: Rc<SB>,
    pub pos: u64,
    pub byte: E,
}
/// A primitive call with symbolic output.
#[derive(Clone)]
pub struct PCall {
    pub kind: u8, // 0 hash, 1 block encryption, 2 block decryption, 3 keystream byte
    pub idx: u32, // into hashes / blocks / kss
    pub base: u32, // first output variable
    pub n: u32,
    pub sup: Rc<Vec<u64>>, // variables of the inputs
}
#[derive(Clone)]
pub struct State {
    pub job: u32,
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub model: Rc<Model>,
    pub nvars: u32,
    pub log: Vec<Log>,
    pub obs: Vec<(u64, Rc<SB>)>,
    pub covers: Vec<u64>,
    pub hashes: Rc<Vec<HashCall>>,
    pub blocks: Rc<Vec<BlockCall>>,
    pub kss: Rc<Vec<KsCall>>,
    pub calls: Rc<Vec<PCall>>,
    pub active: Rc<Vec<bool>>, // by call: its output is constrained
    pub rnd: u64,
    pub rnd_sym: bool,
    pub steps: u64,
    pub long_ok: u64,
    pub max_alloc: u64,
    pub heap: u64,
    pub panic_ok: bool,
    pub now: u64,
    pub hash_seed: u64,
}
#[derive(Debug, Clone)]
pub enum Stop {
    Done,
    Pruned, // an assumption cannot hold
    Panic(String),
    Alloc(String),
    Hang(String),
    Mem(String),
    Unsupported(String),
    Incomplete(String),
}
pub struct Viol {
    pub job: u32,
    pub kind: String,
    pub what: String,
    pub at: String,
    pub log: Vec<String>,
    pub real: bool,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ext {
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Bcmp,
    Memcmp,
    Strlen,
    MemcpyFn,
    MemsetFn,
    Panic,
    Abort,
    OomPanic,
    Zero,
    MinusOne,
    WriteFd,
    Errno,
    Nop,
    GetRandom,
    ClockGettime,
    // llvm intrinsics
    Memcpy,
    Memset,
    AddO(bool),
    SubO(bool),
    MulO(bool),
    AddSat(bool),
    SubSat(bool),
    Min(bool),
    Max(bool),
    Cmp3(bool),
    Abs,
    Fshl,
    Fshr,
    Cttz,
    Ctlz,
    Ctpop,
    Bswap,
    Bitrev,
    LoadRel,
    Ident,
    IsConst,
    Trap,
    Assume,
    RedOr,
    RedAnd,
    RedAdd,
    // harness interface
    SBytes,
    SBelow,
    SChoose,
    SAssume,
    SCheck,
    SCover,
    SObserve,
    SLimit,
    SRandom,
    SHash,
    SBlock,
    SKeystream,
    SParam,
    SPick,
    SIsSym,
    SNote,
    Unknown,
}

pub struct Stats {
    pub paths: u64,
    pub insts: u64,
    pub forks: u64,
    pub checks: u64,
    pub check_queries: u64,
    pub panics: u64,
    pub pruned: u64,
    pub prim_sym: u64,
    pub prim_conc: u64,
    pub realised: u64,
}
pub struct Opts {
    pub max_steps: u64,
    pub params: Vec<Vec<u64>>, // by job
    pub max_enum: usize,
    pub max_viol: usize,
    pub keep: u64,
    pub trace: bool,
}
pub struct Exec {
    pub p: Pool,
    pub m: Rc<Module>,
    pub s: Solver,
    pub ext: Vec<Option<Ext>>,
    pub work: Vec<State>,
    pub cover_blk: Vec<bool>,
    pub st: Stats,
    pub o: Opts,
    pub viols: Vec<Viol>,
    pub incomplete: Vec<(u32, String)>,
    pub samples: Vec<Sample>,
    pub covers: HashMap<(u32, u64), u64>,
    pub check_names: HashMap<(u32, String), (u64, u64)>, // name -> (evaluated, violated)
    pub prim_cache: HashMap<(u64, Vec<u8>), Vec<u8>>,
    pub granges: Vec<(u64, u64)>,
    pub deadline: std::time::Instant,
    pub end_kinds: HashMap<(u32, String), u64>,
}
pub struct Sample {
    pub job: u32,
    pub log: Vec<String>,
    pub obs: Vec<String>,
    pub end: String,
    pub real: bool,
}
type X<T> = Result<T, Stop>;
fn unsup<T>(s: impl Into<String>) -> X<T> {
    Err(Stop::Unsupported(s.into()))
}

pub fn classify(name: &str) -> Option<Ext> {
    use Ext::*;
    let starts = |p: &str| name.starts_with(p);
    Some(match name {
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => Realloc,
        "free" => Free,
        "posix_memalign" => Memalign,
        "bcmp" => Bcmp,
        "memcmp" => Memcmp,
        "strlen" => Strlen,
        "memcpy" | "memmove" => MemcpyFn,
        "memset" => MemsetFn,
        "abort" => Abort,
        "__errno_location" => Errno,
        "getenv" | "pthread_self" | "pthread_getspecific" | "pthread_mutex_lock" | "pthread_mutex_unlock"
        | "pthread_setspecific" | "pthread_key_create" | "pthread_key_delete" | "__cxa_thread_atexit_impl"
        | "gettid" | "getpid" | "sched_yield" => Zero,
        "lstat64" | "lstat" | "fstat" | "fcntl" | "fcntl64" | "ioctl" | "lseek64" | "open" | "open64" | "read" | "close" | "stat" | "stat64" | "fstat64" | "statx" | "writev"
        | "poll" | "readlink" | "realpath" => MinusOne,
        "write" => WriteFd,
        "getcwd" | "mmap64" | "mmap" => MinusOne,
        "getrandom" => GetRandom,
        "syscall" => GetRandom,
        "clock_gettime" => ClockGettime,
        "symx_bytes" => SBytes,
        "symx_below" => SBelow,
        "symx_choose" => SChoose,
        "symx_assume" => SAssume,
        "symx_check" => SCheck,
        "symx_cover" => SCover,
        "symx_observe" => SObserve,
        "symx_limit" => SLimit,
        "symx_random" => SRandom,
        "symx_hash" => SHash,
        "symx_block" => SBlock,
        "symx_keystream" => SKeystream,
        "symx_param" => SParam,
        "symx_pick" => SPick,
        "symx_is_symbolic" => SIsSym,
        "symx_note" => SNote,
        _ if starts("llvm.memcpy") || starts("llvm.memmove") => Memcpy,
        _ if starts("llvm.memset") => Memset,
        _ if starts("llvm.lifetime")
            || starts("llvm.experimental.noalias")
            || starts("llvm.dbg")
            || starts("llvm.x86.sse2.pause")
            || starts("llvm.invariant")
            || starts("llvm.prefetch")
            || starts("llvm.donothing")
            || starts("llvm.x86.sse2.lfence") =>
        {
            Nop
        }
        _ if starts("llvm.assume") => Assume,
        _ if starts("llvm.uadd.with.overflow") => AddO(false),
        _ if starts("llvm.sadd.with.overflow") => AddO(true),
        _ if starts("llvm.usub.with.overflow") => SubO(false),
        _ if starts("llvm.ssub.with.overflow") => SubO(true),
        _ if starts("llvm.umul.with.overflow") => MulO(false),
        _ if starts("llvm.smul.with.overflow") => MulO(true),
        _ if starts("llvm.uadd.sat") => AddSat(false),
        _ if starts("llvm.sadd.sat") => AddSat(true),
        _ if starts("llvm.usub.sat") => SubSat(false),
        _ if starts("llvm.ssub.sat") => SubSat(true),
        _ if starts("llvm.umin") => Min(false),
        _ if starts("llvm.smin") => Min(true),
        _ if starts("llvm.umax") => Max(false),
        _ if starts("llvm.smax") => Max(true),
        _ if starts("llvm.ucmp") => Cmp3(false),
        _ if starts("llvm.scmp") => Cmp3(true),
        _ if starts("llvm.abs") => Abs,
        _ if starts("llvm.fshl") => Fshl,
        _ if starts("llvm.fshr") => Fshr,
        _ if starts("llvm.cttz") => Cttz,
        _ if starts("llvm.ctlz") => Ctlz,
        _ if starts("llvm.ctpop") => Ctpop,
        _ if starts("llvm.bswap") => Bswap,
        _ if starts("llvm.bitreverse") => Bitrev,
        _ if starts("llvm.load.relative") => LoadRel,
        _ if starts("llvm.threadlocal.address") || starts("llvm.expect") || starts("llvm.ptrmask") && false => Ident,
        _ if starts("llvm.is.constant") => IsConst,
        _ if starts("llvm.trap") || starts("llvm.ubsantrap") => Trap,
        _ if starts("llvm.vector.reduce.or") => RedOr,
        _ if starts("llvm.vector.reduce.and") => RedAnd,
        _ if starts("llvm.vector.reduce.add") => RedAdd,
        _ if name.contains("panic_fmt")
            || name.contains("rust_begin_unwind")
            || name.contains("panic_nounwind")
            || name.contains("rust_panic") =>
        {
            Panic
        }
        _ if name.contains("handle_alloc_error") || name.contains("alloc_error_handler") => OomPanic,
        _ if name.contains("2io5stdio6__print") || name.contains("2io5stdio7__eprint") => Nop,
        _ => return None,
    })
}

impl Exec {
    pub fn new(p: Pool, m: Module, solver: &str, o: Opts) -> Exec {
        let ext = m
            .funcs
            .iter()
            .map(|f| {
                let c = classify(&f.name);
                if c.is_none() && !f.defined {
                    Some(Ext::Unknown)
                } else {
                    c
                }
            })
            .collect();
        let nb = m.nblocks as usize;
        let mut granges: Vec<(u64, u64)> = m.globals.iter().map(|g| (g.addr, g.size)).collect();
        granges.sort();
        Exec {
            p,
            m: Rc::new(m),
            s: Solver::new(solver),
            ext,
            work: vec![],
            cover_blk: vec![false; nb],
            st: Stats {
                paths: 0,
                insts: 0,
                forks: 0,
                checks: 0,
                check_queries: 0,
                panics: 0,
                pruned: 0,
                prim_sym: 0,
                prim_conc: 0,
                realised: 0,
            },
            o,
            viols: vec![],
            incomplete: vec![],
            samples: vec![],
            covers: HashMap::new(),
            check_names: HashMap::new(),
            prim_cache: HashMap::new(),
            granges,
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(100000),
            end_kinds: HashMap::new(),
        }
    }
    /// Forget what has been counted so far (in a newly forked process).
    pub fn reset_results(&mut self) {
        self.st = Stats { paths: 0, insts: 0, forks: 0, checks: 0, check_queries: 0, panics: 0, pruned: 0, prim_sym: 0, prim_conc: 0, realised: 0 };
        self.viols.clear();
        self.incomplete.clear();
        self.samples.clear();
        self.covers.clear();
        self.check_names.clear();
        self.end_kinds.clear();
        self.s.reset_counters();
    }
    pub fn initial(&mut self, job: u32, entry: &str) -> Result<State, String> {
        let m = self.m.clone();
        let f = *m.fmap.get(entry).ok_or(format!("no function {}", entry))?;
        let mut mem = Mem::new();
        mem.objs[OBJ_CONST as usize] = Some(Rc::new(Obj { d: m.gconst.clone(), s: None }));
        mem.objs[OBJ_MUT as usize] = Some(Rc::new(Obj { d: m.gmut.clone(), s: None }));
        // object 4: errno
        mem.objs[4] = Some(Rc::new(Obj { d: vec![2, 0, 0, 0, 0, 0, 0, 0], s: None }));
        let mut st = State {
            job,
            frames: vec![],
            mem,
            pc: vec![],
            model: Rc::new(Model::new(vec![])),
            nvars: 0,
            log: vec![],
            obs: vec![],
            covers: vec![],
            hashes: Rc::new(vec![]),
            blocks: Rc::new(vec![]),
            kss: Rc::new(vec![]),
            calls: Rc::new(vec![]),
            active: Rc::new(vec![]),
            rnd: 0,
            rnd_sym: false,
            steps: 0,
            long_ok: 0,
            max_alloc: 64 << 20,
            heap: 0,
            panic_ok: false,
            now: 1_700_000_000,
            hash_seed: 0,
        };
        self.push_frame(&mut st, f, vec![], NONE, NONE);
        Ok(st)
    }
    fn push_frame(&mut self, st: &mut State, f: u32, args: Vec<Val>, ret_dst: u32, ret_blk: u32) {
        let fun = &self.m.funcs[f as usize];
        let mut regs = vec![Val::C(0); fun.nregs as usize];
        for (i, a) in args.into_iter().enumerate() {
            if i < fun.params.len() {
                regs[fun.params[i] as usize] = a;
            }
        }
        let fobj = if fun.frame > 0 { st.mem.alloc(fun.frame as usize) } else { 0 };
        self.cover_blk[fun.blk_base as usize] = true;
        st.frames.push(Frame { f, blk: 0, pc: 0, regs, fobj, ret_dst, ret_blk });
    }
    // ---- values ------------------------------------------------------
    #[inline]
    pub fn mk(&self, e: E, w: u32) -> Val {
        if w <= 64 {
            if let Some(k) = self.p.is_const(e) {
                return Val::C(k as u64);
            }
        }
        Val::X(e)
    }
    pub fn ex(&mut self, v: &Val, w: u32) -> X<E> {
        Ok(match v {
            Val::C(c) => self.p.konst(w, *c as u128),
            Val::X(e) => {
                debug_assert_eq!(self.p.w(*e), w);
                *e
            }
            Val::A(_) => return unsup("aggregate as scalar"),
        })
    }
    // ---- solver ------------------------------------------------------
    /// What the ideal primitives promise about the calls whose outputs occur in
    /// `es`, directly or through the inputs of such calls: the additional
    /// conditions, and which calls are constrained then. Outputs that nothing
    /// constrains can be chosen to fit any inputs, so the conditions on them are
    /// left out of a query.
    fn activation(&mut self, st: &State, es: &[E]) -> (Vec<E>, Option<Vec<bool>>) {
        if st.calls.is_empty() {
            return (vec![], None);
        }
        let mut act: Option<Vec<bool>> = None;
        let mut ax = vec![];
        let mut todo: Vec<E> = es.to_vec();
        while let Some(e) = todo.pop() {
            if self.p.is_const(e).is_some() {
                continue;
            }
            let sup = self.p.support(e);
            for (wi, word) in sup.iter().enumerate() {
                let mut word = *word;
                while word != 0 {
                    let v = (wi * 64) as u32 + word.trailing_zeros();
                    word &= word - 1;
                    let k = st.calls.partition_point(|c| c.base <= v);
                    if k == 0 {
                        continue;
                    }
                    let k = k - 1;
                    let c = &st.calls[k];
                    if v >= c.base + c.n {
                        continue;
                    }
                    let on = match &act {
                        Some(a) => a[k],
                        None => st.active[k],
                    };
                    if on {
                        continue;
                    }
                    let c = c.clone();
                    let a = act.get_or_insert_with(|| (*st.active).clone());
                    a[k] = true;
                    let a = a.clone();
                    let new = self.relations(st, &c, &a);
                    todo.extend(new.iter().copied());
                    ax.extend(new);
                }
            }
        }
        (ax, act)
    }
    /// Relations between one call and every concrete or constrained one.
    fn relations(&mut self, st: &State, c: &PCall, act: &[bool]) -> Vec<E> {
        let mut live = [vec![], vec![], vec![]];
        for (k, o) in st.calls.iter().enumerate() {
            let g = match o.kind {
                0 => 0,
                1 | 2 => 1,
                _ => 2,
            };
            if live[g].len() <= o.idx as usize {
                live[g].resize(o.idx as usize + 1, true);
            }
            live[g][o.idx as usize] = act[k];
        }
        let mut out = vec![];
        match c.kind {
            0 => {
                let me = st.hashes[c.idx as usize].clone();
                for (i, o) in st.hashes.clone().iter().enumerate() {
                    if i != c.idx as usize && live[0].get(i).copied().unwrap_or(true) {
                        if let Some(r) = self.rel_hash(o, &me) {
                            out.push(r);
                        }
                    }
                }
            }
            1 | 2 => {
                let me = st.blocks[c.idx as usize].clone();
                let mut cnt = 0;
                // only the most recent ones: fewer relations are a weaker
                // assumption, never an unsound one
                for (i, o) in st.blocks.clone().iter().enumerate().rev() {
                    if i != c.idx as usize && live[1].get(i).copied().unwrap_or(true) {
                        if let Some(r) = self.rel_block(o, &me) {
                            out.push(r);
                            cnt += 1;
                            if cnt > 24 {
                                break;
                            }
                        }
                    }
                }
            }
            _ => {
                let me = st.kss[c.idx as usize].clone();
                for (i, o) in st.kss.clone().iter().enumerate() {
                    if i != c.idx as usize && live[2].get(i).copied().unwrap_or(true) {
                        if let Some(r) = self.rel_ks(o, &me) {
                            out.push(r);
                        }
                    }
                }
            }
        }
        out.retain(|&e| self.p.is_const(e) != Some(1));
        out
    }
    fn rel_hash(&mut self, c: &HashCall, d: &HashCall) -> Option<E> {
        if c.alg != d.alg || c.out.len() != d.out.len() {
            return None;
        }
        let inj = prims::injective(c.alg);
        if c.inp.len() != d.inp.len() && !inj {
            return None;
        }
        let oe = self.eq_sb(&c.out, &d.out);
        if c.inp.len() != d.inp.len() {
            return Some(self.p.not(oe));
        }
        let ie = self.eq_sb(&c.inp, &d.inp);
        Some(if inj {
            if self.p.is_const(ie) == Some(0) {
                self.p.not(oe)
            } else {
                self.p.bin(Op::Eq, ie, oe)
            }
        } else {
            let ni = self.p.not(ie);
            self.p.bin(Op::Or, ni, oe)
        })
    }
    /// A keyed permutation: equal keys => (inputs equal <=> outputs equal).
    fn rel_block(&mut self, c: &BlockCall, d: &BlockCall) -> Option<E> {
        if c.alg != d.alg || c.key.len() != d.key.len() {
            return None;
        }
        let ke = self.eq_sb(&c.key, &d.key);
        if self.p.is_const(ke) == Some(0) {
            return None;
        }
        let xe = self.eq_sb(&c.x, &d.x);
        let ye = self.eq_sb(&c.y, &d.y);
        let iff = self.p.bin(Op::Eq, xe, ye);
        let nk = self.p.not(ke);
        Some(self.p.bin(Op::Or, nk, iff))
    }
    fn rel_ks(&mut self, c: &KsCall, d: &KsCall) -> Option<E> {
        if c.pos != d.pos || c.alg != d.alg || c.key.len() != d.key.len() || c.iv.len() != d.iv.len() {
            return None;
        }
        let ke = self.eq_sb(&c.key, &d.key);
        let ve = self.eq_sb(&c.iv, &d.iv);
        let same = self.p.bin(Op::And, ke, ve);
        let ns = self.p.not(same);
        let be = self.p.bin(Op::Eq, c.byte, d.byte);
        Some(self.p.bin(Op::Or, ns, be))
    }
    fn add_call(&mut self, st: &mut State, kind: u8, idx: usize, base: u32, n: u32, ins: &[&SB]) {
        let mut sup: Vec<u64> = vec![];
        for b in ins {
            for i in 0..b.len() {
                let e = b.sym(i);
                if e != 0 {
                    let s = self.p.support(e);
                    if sup.len() < s.len() {
                        sup.resize(s.len(), 0);
                    }
                    for (i, v) in s.iter().enumerate() {
                        sup[i] |= v;
                    }
                }
            }
        }
        Rc::make_mut(&mut st.calls).push(PCall { kind, idx: idx as u32, base, n, sup: Rc::new(sup) });
        Rc::make_mut(&mut st.active).push(false);
    }
    /// Value of a call's output under a model in which its inputs are known.
    fn call_value(&mut self, st: &State, c: &PCall, m: &Model, act: &[bool]) -> Option<Vec<u8>> {
        match c.kind {
            0 => {
                let h = st.hashes[c.idx as usize].clone();
                let i = self.eval_sb(m, &h.inp);
                for (k, o) in st.calls.iter().enumerate() {
                    if o.kind == 0 && act[k] {
                        let g = &st.hashes[o.idx as usize];
                        if g.alg == h.alg && g.out.len() == h.out.len() && g.inp.len() == i.len() && self.eval_sb(m, &g.inp) == i {
                            return Some(self.eval_sb(m, &g.out));
                        }
                    }
                }
                self.real_hash(h.alg, &i, h.out.len())
            }
            1 | 2 => {
                let b = st.blocks[c.idx as usize].clone();
                let dec = c.kind == 2;
                let (i, _) = if dec { (&b.y, &b.x) } else { (&b.x, &b.y) };
                let k = self.eval_sb(m, &b.key);
                let i = self.eval_sb(m, i);
                for (q, o) in st.calls.iter().enumerate() {
                    if (o.kind == 1 || o.kind == 2) && act[q] {
                        let g = &st.blocks[o.idx as usize];
                        let (gi, go) = if dec { (&g.y, &g.x) } else { (&g.x, &g.y) };
                        if g.alg == b.alg && self.eval_sb(m, &g.key) == k && self.eval_sb(m, gi) == i {
                            return Some(self.eval_sb(m, go));
                        }
                    }
                }
                prims::block(b.alg, dec, &k, &i.try_into().ok()?).map(|v| v.to_vec())
            }
            _ => {
                let c = st.kss[c.idx as usize].clone();
                let k = self.eval_sb(m, &c.key);
                let v = self.eval_sb(m, &c.iv);
                for (q, o) in st.calls.iter().enumerate() {
                    if o.kind == 3 && act[q] {
                        let g = &st.kss[o.idx as usize];
                        if g.pos == c.pos && g.alg == c.alg && self.eval_sb(m, &g.key) == k && self.eval_sb(m, &g.iv) == v {
                            return Some(vec![self.p.eval(g.byte, m) as u8]);
                        }
                    }
                }
                prims::keystream(c.alg, &k, &v, c.pos, 1)
            }
        }
    }
    /// Is path condition + extra satisfiable? Some(model) if so.
    pub fn feasible(&mut self, st: &State, extra: &[E]) -> X<Option<Rc<Model>>> {
        if extra.iter().any(|&e| self.p.is_const(e) == Some(0)) {
            return Ok(None);
        }
        let (ax, act) = self.activation(st, extra);
        if self.o.trace && ax.len() > 100 {
            eprintln!("{} relations for {} at {}", ax.len(), self.p.show(extra[0], 8), self.stack(st));
        }
        let mut cs: Vec<E> = vec![];
        let mut sup: Vec<u64> = vec![];
        let add = |sup: &mut Vec<u64>, s: &[u64]| {
            if sup.len() < s.len() {
                sup.resize(s.len(), 0);
            }
            for (i, v) in s.iter().enumerate() {
                sup[i] |= v;
            }
        };
        for &e in extra.iter().chain(ax.iter()) {
            if self.p.is_const(e) == Some(0) {
                return Ok(None);
            }
            if self.p.is_const(e).is_none() {
                let s = self.p.support(e);
                add(&mut sup, &s);
                cs.push(e);
            }
        }
        let mut rest: Vec<(E, Rc<Vec<u64>>)> = st.pc.iter().map(|&e| (e, self.p.support(e))).collect();
        loop {
            let mut changed = false;
            let mut next = Vec::with_capacity(rest.len());
            for (e, s) in rest {
                if intersects(&s, &sup) {
                    add(&mut sup, &s);
                    cs.push(e);
                    changed = true;
                } else {
                    next.push((e, s));
                }
            }
            rest = next;
            if !changed {
                break;
            }
        }
        // quick contradiction
        for &e in extra {
            let ne = self.p.not(e);
            if cs.contains(&ne) {
                return Ok(None);
            }
        }
        match self.s.check(&mut self.p, cs) {
            (Sat::Sat, vals) => {
                let mut v = st.model.vals.clone();
                let mut chg: Vec<u64> = vec![0; (st.nvars as usize).max(v.len()) / 64 + 1];
                for (i, k) in vals {
                    if v.len() <= i as usize {
                        v.resize(i as usize + 1, 0);
                    }
                    if v[i as usize] != k {
                        if chg.len() <= i as usize / 64 {
                            chg.resize(i as usize / 64 + 1, 0);
                        }
                        chg[i as usize / 64] |= 1 << (i % 64);
                    }
                    v[i as usize] = k;
                }
                let mut m = Model::new(v);
                let act = match &act {
                    Some(a) => a.clone(),
                    None => (*st.active).clone(),
                };
                let calls = st.calls.clone();
                for (k, c) in calls.iter().enumerate() {
                    if act[k] || !intersects(&c.sup, &chg) {
                        continue;
                    }
                    if let Some(out) = self.call_value(st, c, &m, &act) {
                        let mut diff = false;
                        for (i, b) in out.iter().enumerate() {
                            let x = (c.base as usize) + i;
                            if m.vals.len() <= x {
                                m.vals.resize(x + 1, 0);
                            }
                            if m.vals[x] != *b as u128 {
                                m.vals[x] = *b as u128;
                                chg[x / 64] |= 1 << (x % 64);
                                diff = true;
                            }
                        }
                        if diff {
                            // nothing that depends on these was evaluated before,
                            // except through an active call
                            m.cache.borrow_mut().clear();
                        }
                    }
                }
                Ok(Some(Rc::new(m)))
            }
            (Sat::Unsat, _) => Ok(None),
            (Sat::Unknown, _) => Err(Stop::Incomplete("solver gave no answer".into())),
        }
    }
    fn eval(&self, st: &State, e: E) -> u128 {
        self.p.eval(e, &st.model)
    }
    /// Add a constraint; the model is refreshed if it no longer fits. false: infeasible.
    pub fn constrain(&mut self, st: &mut State, e: E) -> X<bool> {
        match self.p.is_const(e) {
            Some(1) => return Ok(true),
            Some(_) => return Ok(false),
            None => {}
        }
        if self.eval(st, e) != 1 {
            match self.feasible(st, &[e])? {
                Some(m) => st.model = m,
                None => return Ok(false),
            }
        }
        self.add_pc(st, e)?;
        Ok(true)
    }
    fn push_pc(&mut self, st: &mut State, e: E) {
        // split conjunctions so that slicing stays fine-grained
        let n = self.p.n(e);
        if n.op == Op::And && n.w == 1 {
            self.push_pc(st, n.a);
            self.push_pc(st, n.b);
            return;
        }
        if self.p.is_const(e).is_none() && !st.pc.contains(&e) {
            st.pc.push(e);
        }
    }
    /// Add a condition that holds in the current model.
    fn add_pc(&mut self, st: &mut State, e: E) -> X<()> {
        let (ax, act) = self.activation(st, &[e]);
        if ax.iter().any(|&a| self.eval(st, a) != 1) {
            match self.feasible(st, &[e])? {
                Some(m) => st.model = m,
                None => return Err(Stop::Pruned),
            }
        }
        self.push_pc(st, e);
        for a in ax {
            self.push_pc(st, a);
        }
        if let Some(a) = act {
            if self.o.trace {
                eprintln!("activating by {} at {}", self.p.show(e, 6), self.stack(st));
            }
            st.active = Rc::new(a);
        }
        Ok(())
    }
    /// Decide a 1-bit condition, forking if both ways are possible. The other
    /// way is queued with the *same* program position (the instruction is
    /// executed again there).
    fn decide(&mut self, st: &mut State, c: E) -> X<bool> {
        if let Some(k) = self.p.is_const(c) {
            return Ok(k == 1);
        }
        let v = self.eval(st, c) == 1;
        let nc = self.p.not(c);
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        if st.pc.contains(&mine) {
            return Ok(v);
        }
        if let Some(m) = self.feasible(st, &[other])? {
            let mut o = st.clone();
            o.model = m;
            self.add_pc(&mut o, other)?;
            self.st.forks += 1;
            self.work.push(o);
            self.add_pc(st, mine)?;
        }
        Ok(v)
    }
    /// Reduce a value to one concrete number on this path, queueing the rest.
    fn concretize(&mut self, st: &mut State, v: &Val, w: u32) -> X<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::X(e) => {
                if let Some(k) = self.p.is_const(*e) {
                    return Ok(k as u64);
                }
                let k = self.eval(st, *e);
                let kc = self.p.konst(w, k);
                let eq = self.p.bin(Op::Eq, *e, kc);
                let ne = self.p.not(eq);
                if !st.pc.contains(&eq) {
                    if let Some(m) = self.feasible(st, &[ne])? {
                        let mut o = st.clone();
                        o.model = m;
                        self.add_pc(&mut o, ne)?;
                        self.st.forks += 1;
                        let cnt = o.pc.iter().rev().take(self.o.max_enum + 1).filter(|c| self.is_ne_of(**c, *e)).count();
                        if cnt > self.o.max_enum {
                            return Err(Stop::Incomplete(format!(
                                "more than {} values for one quantity",
                                self.o.max_enum
                            )));
                        }
                        self.work.push(o);
                        self.add_pc(st, eq)?;
                    }
                }
                Ok(k as u64)
            }
            Val::A(_) => unsup("concretize aggregate"),
        }
    }
    fn is_ne_of(&self, c: E, e: E) -> bool {
        let n = self.p.n(c);
        if n.op != Op::Xor {
            return false;
        }
        let q = self.p.n(n.a);
        q.op == Op::Eq && (q.a == e || q.b == e)
    }
    pub fn fresh(&mut self, st: &mut State, n: u32, w: u32, init: &[u128]) -> Vec<E> {
        let base = st.nvars;
        st.nvars += n;
        let mut vals = st.model.vals.clone();
        vals.resize(base as usize, 0);
        for i in 0..n as usize {
            vals.push(init.get(i).copied().unwrap_or(0));
        }
        let cache = st.model.cache.borrow().clone();
        let m = Model::new(vals);
        *m.cache.borrow_mut() = cache;
        st.model = Rc::new(m);
        (0..n).map(|i| self.p.var(base + i, w)).collect()
    }
    // ---- typed memory ------------------------------------------------
    fn load_scalar(&mut self, st: &State, addr: u64, w: u32) -> X<Val> {
        let nb = ((w + 7) / 8) as usize;
        let (o, off) = st.mem.obj(addr, nb).map_err(Stop::Mem)?;
        let symbolic = match &o.s {
            None => false,
            Some(s) => s[off..off + nb].iter().any(|e| *e != 0),
        };
        if !symbolic {
            if w <= 64 {
                let mut k = 0u64;
                for i in (0..nb).rev() {
                    k = k << 8 | o.d[off + i] as u64;
                }
                return Ok(Val::C(k & mask(w) as u64));
            }
            let mut k = 0u128;
            for i in (0..nb).rev() {
                k = k << 8 | o.d[off + i] as u128;
            }
            return Ok(Val::X(self.p.konst(w, k)));
        }
        let bytes: Vec<(E, u8)> = {
            let s = o.s.as_ref().unwrap();
            (0..nb).map(|i| (s[off + i], o.d[off + i])).collect()
        };
        let mut r = 0;
        for (e, d) in bytes {
            let b = if e != 0 { e } else { self.p.konst(8, d as u128) };
            r = if r == 0 { b } else { self.p.concat(b, r) };
        }
        if w % 8 != 0 {
            r = self.p.extract(r, 0, w);
        }
        Ok(self.mk(r, w))
    }
    fn load(&mut self, st: &State, addr: u64, t: TyId) -> X<Val> {
        let m = self.m.clone();
        match m.ty(t) {
            Ty::Int(w) => self.load_scalar(st, addr, *w),
            Ty::Ptr => self.load_scalar(st, addr, 64),
            Ty::Float(w) => self.load_scalar(st, addr, *w),
            Ty::Vector(_, e) if matches!(m.ty(*e), Ty::Int(w) if *w % 8 != 0) => {
                let n = m.nelems(t) as u32;
                let w = m.int_w(*e).unwrap();
                let v = self.load_scalar(st, addr, n * w)?;
                let b = self.ex(&v, n * w)?;
                let mut r = vec![];
                for i in 0..n {
                    let x = self.p.extract(b, i * w, w);
                    r.push(self.mk(x, w));
                }
                Ok(Val::A(Rc::new(r)))
            }
            Ty::Array(..) | Ty::Struct(..) | Ty::Vector(..) => {
                let n = m.nelems(t);
                let mut v = Vec::with_capacity(n as usize);
                for i in 0..n {
                    let (o, e) = m.field(t, i);
                    v.push(self.load(st, addr + o, e)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => unsup("load type"),
        }
    }
    fn store_scalar(&mut self, st: &mut State, addr: u64, w: u32, v: &Val) -> X<()> {
        let nb = ((w + 7) / 8) as usize;
        match v {
            Val::C(c) => {
                let (o, off) = st.mem.obj_mut(addr, nb).map_err(Stop::Mem)?;
                let b = c.to_le_bytes();
                for i in 0..nb {
                    o.d[off + i] = if i < 8 { b[i] } else { 0 };
                }
                if let Some(s) = &mut o.s {
                    s[off..off + nb].fill(0);
                }
                Ok(())
            }
            Val::X(e) => {
                let mut e = *e;
                if w % 8 != 0 {
                    e = self.p.zext(e, nb as u32 * 8);
                }
                let mut bs = Vec::with_capacity(nb);
                for i in 0..nb {
                    let x = self.p.extract(e, i as u32 * 8, 8);
                    bs.push((x, self.p.is_const(x)));
                }
                let (o, off) = st.mem.obj_mut(addr, nb).map_err(Stop::Mem)?;
                let anysym = bs.iter().any(|b| b.1.is_none());
                if anysym && o.s.is_none() {
                    o.s = Some(vec![0; o.d.len()]);
                }
                for (i, (x, k)) in bs.iter().enumerate() {
                    match k {
                        Some(k) => {
                            o.d[off + i] = *k as u8;
                            if let Some(s) = &mut o.s {
                                s[off + i] = 0;
                            }
                        }
                        None => {
                            o.d[off + i] = 0;
                            o.s.as_mut().unwrap()[off + i] = *x;
                        }
                    }
                }
                Ok(())
            }
            Val::A(_) => unsup("store aggregate as scalar"),
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, t: TyId, v: &Val) -> X<()> {
        let m = self.m.clone();
        match m.ty(t) {
            Ty::Int(w) | Ty::Float(w) => self.store_scalar(st, addr, *w, v),
            Ty::Ptr => self.store_scalar(st, addr, 64, v),
            Ty::Vector(_, e) if matches!(m.ty(*e), Ty::Int(w) if *w % 8 != 0) => {
                let n = m.nelems(t) as u32;
                let w = m.int_w(*e).unwrap();
                let b = self.to_bits(v, w, n)?;
                let v = self.mk(b, n * w);
                self.store_scalar(st, addr, n * w, &v)
            }
            Ty::Array(..) | Ty::Struct(..) | Ty::Vector(..) => {
                if let Val::A(vs) = v {
                    for (i, x) in vs.iter().enumerate() {
                        let (o, e) = m.field(t, i as u64);
                        self.store(st, addr + o, e, x)?;
                    }
                    Ok(())
                } else {
                    unsup("store scalar as aggregate")
                }
            }
            _ => unsup("store type"),
        }
    }
    fn to_bits(&mut self, v: &Val, w: u32, n: u32) -> X<E> {
        match v {
            Val::A(vs) => {
                if w * n > 128 {
                    return unsup("wide bitcast");
                }
                let mut r = 0;
                for x in vs.iter() {
                    let e = self.ex(x, w)?;
                    r = if r == 0 { e } else { self.p.concat(e, r) };
                }
                Ok(r)
            }
            _ => self.ex(v, w),
        }
    }
    /// The object (or single global) an address points into: (start, length).
    fn region(&self, st: &State, a: u64) -> Option<(u64, u64)> {
        let id = a >> 32;
        if id == OBJ_CONST || id == OBJ_MUT {
            let i = self.granges.partition_point(|g| g.0 <= a);
            if i == 0 {
                return None;
            }
            let (s, n) = self.granges[i - 1];
            if a < s + n.max(1) {
                return Some((s, n));
            }
            return None;
        }
        match st.mem.objs.get(id as usize) {
            Some(Some(o)) => Some((id << 32, o.d.len() as u64)),
            _ => None,
        }
    }
    fn leaves(&mut self, e: E, d: u32, cond: E, out: &mut Vec<(E, u64)>) -> bool {
        if d == 0 || out.len() > 16 {
            return false;
        }
        let n = self.p.n(e);
        match n.op {
            Op::Const => {
                out.push((cond, n.k as u64));
                true
            }
            Op::Ite => {
                let nc = self.p.not(n.a);
                let c1 = self.p.bin(Op::And, cond, n.a);
                let c2 = self.p.bin(Op::And, cond, nc);
                self.leaves(n.b, d - 1, c1, out) && self.leaves(n.c, d - 1, c2, out)
            }
            Op::Add => {
                if let Some(k) = self.p.is_const(n.b) {
                    let s = out.len();
                    if !self.leaves(n.a, d - 1, cond, out) {
                        return false;
                    }
                    for o in &mut out[s..] {
                        o.1 = o.1.wrapping_add(k as u64);
                    }
                    return true;
                }
                false
            }
            _ => false,
        }
    }
    /// Load through a symbolic address.
    fn load_sym(&mut self, st: &mut State, a: E, t: TyId) -> X<Option<Val>> {
        let m = self.m.clone();
        let w = match m.ty(t) {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => return Ok(None),
        };
        let mut lv = vec![];
        let one = self.p.konst(1, 1);
        if self.leaves(a, 6, one, &mut lv) && lv.len() <= 16 {
            let nb = (w as usize + 7) / 8;
            if lv.iter().all(|l| st.mem.obj(l.1, nb).is_ok()) {
                let mut r = 0;
                for (c, k) in lv.iter().rev() {
                    let v = self.load_scalar(st, *k, w)?;
                    let e = self.ex(&v, w)?;
                    r = if r == 0 { e } else { self.p.ite(*c, e, r) };
                }
                return Ok(Some(self.mk(r, w)));
            }
            // some leaf is not readable (e.g. null on an infeasible side): fall through
            return Ok(None);
        }
        let cur = self.eval(st, a) as u64;
        let (start, len) = match self.region(st, cur) {
            Some(r) => r,
            None => return Ok(None),
        };
        let nb = ((w + 7) / 8) as u64;
        if let Some(v) = self.load_narrow(st, a, start, len, nb, w)? {
            return Ok(Some(v));
        }
        if len < nb || len > 4096 {
            return Ok(None);
        }
        // must stay inside the region
        let s0 = self.p.konst(64, start as u128);
        let rel = self.p.bin(Op::Sub, a, s0);
        let lim = self.p.konst(64, (len - nb) as u128);
        let inb = self.p.bin(Op::Ule, rel, lim);
        if !self.decide(st, inb)? {
            return Ok(None);
        }
        let step = 1u64 << self.p.tz(rel).min(6);
        let base = cur.wrapping_sub(start) % step;
        let mut cand = vec![];
        let mut o = base;
        while o + nb <= len {
            cand.push(o);
            o += step;
        }
        if cand.len() > 1024 {
            return Ok(None);
        }
        if base != 0 && step > 1 {
            // tz() bounds the low bits only when they are zero
            return Ok(None);
        }
        let mut vals = Vec::with_capacity(cand.len());
        for o in &cand {
            let v = self.load_scalar(st, start + o, w)?;
            vals.push(self.ex(&v, w)?);
        }
        let r = self.mux(rel, &cand, &vals, w);
        Ok(Some(self.mk(r, w)))
    }
    /// Load of constants through an address that is a function of at most 8 bits.
    fn load_narrow(&mut self, st: &mut State, a: E, start: u64, len: u64, nb: u64, w: u32) -> X<Option<Val>> {
        let r = match self.p.root(a) {
            Some(r) => r,
            None => return Ok(None),
        };
        let t = match self.p.table(a) {
            Some(t) => t,
            None => return Ok(None),
        };
        let inside = |x: u128| (x as u64) >= start && (x as u64) - start + nb <= len;
        if t.iter().any(|x| !inside(*x)) {
            return Ok(None);
        }
        let mut vals = Vec::with_capacity(t.len());
        for x in t.iter() {
            match self.load_scalar(st, *x as u64, w)? {
                Val::C(v) => vals.push(v as u128),
                _ => return Ok(None),
            }
        }
        let (r, vals) = self.p.reduce(r, &vals);
        let rw = self.p.w(r);
        if w >= rw && vals.iter().enumerate().all(|(i, v)| *v == i as u128) {
            let e = self.p.zext(r, w);
            return Ok(Some(self.mk(e, w)));
        }
        let cand: Vec<u64> = (0..vals.len() as u64).collect();
        let es: Vec<E> = vals.iter().map(|v| self.p.konst(w, *v)).collect();
        let e = self.mux(r, &cand, &es, w);
        Ok(Some(self.mk(e, w)))
    }
    /// Table lookup by binary search over runs of equal or consecutive values.
    fn mux(&mut self, ix: E, cand: &[u64], vals: &[E], w: u32) -> E {
        // runs: (first index, kind) kind 0 equal, 1 affine
        let mut runs: Vec<(usize, usize, i128)> = vec![]; // start, end, slope per element
        let mut i = 0;
        while i < vals.len() {
            let mut j = i + 1;
            while j < vals.len() && vals[j] == vals[i] {
                j += 1;
            }
            if j == i + 1 {
                // affine?
                let k0 = self.p.is_const(vals[i]);
                let k1 = vals.get(i + 1).and_then(|v| self.p.is_const(*v));
                if let (Some(a), Some(b)) = (k0, k1) {
                    let d = b as i128 - a as i128;
                    let mut q = i + 2;
                    let mut last = b as i128;
                    while q < vals.len() {
                        match self.p.is_const(vals[q]) {
                            Some(c) if c as i128 - last == d => {
                                last = c as i128;
                                q += 1;
                            }
                            _ => break,
                        }
                    }
                    if q - i >= 4 {
                        runs.push((i, q, d));
                        i = q;
                        continue;
                    }
                }
            }
            runs.push((i, j, 0));
            i = j;
        }
        self.mux_runs(ix, cand, vals, &runs, w)
    }
    fn mux_runs(&mut self, ix: E, cand: &[u64], vals: &[E], runs: &[(usize, usize, i128)], w: u32) -> E {
        if runs.len() == 1 {
            let (a, _b, d) = runs[0];
            if d == 0 {
                return vals[a];
            }
            // value = v0 + ((ix - c0) / step) * d
            let step = cand[a + 1] - cand[a];
            let iw = self.p.w(ix);
            let c0 = self.p.konst(iw, cand[a] as u128);
            let rel = self.p.bin(Op::Sub, ix, c0);
            let sh = self.p.konst(iw, step.trailing_zeros() as u128);
            let n = self.p.bin(Op::LShr, rel, sh);
            let n = if iw > w {
                self.p.extract(n, 0, w)
            } else if iw < w {
                self.p.zext(n, w)
            } else {
                n
            };
            let dk = self.p.konst(w, d as u128 & mask(w));
            let pr = self.p.bin(Op::Mul, n, dk);
            return self.p.bin(Op::Add, vals[a], pr);
        }
        let mid = runs.len() / 2;
        let iw = self.p.w(ix);
        let b = self.p.konst(iw, cand[runs[mid].0] as u128);
        let c = self.p.bin(Op::Ult, ix, b);
        let l = self.mux_runs(ix, cand, vals, &runs[..mid], w);
        let r = self.mux_runs(ix, cand, vals, &runs[mid..], w);
        self.p.ite(c, l, r)
    }
    // ---- arithmetic --------------------------------------------------
    fn bin1(&mut self, b: B, w: u32, x: &Val, y: &Val) -> X<Val> {
        if let (Val::C(a), Val::C(c)) = (x, y) {
            let (a, c) = (*a, *c);
            let m = mask(w) as u64;
            let sx = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
            let r = match b {
                B::Add => a.wrapping_add(c),
                B::Sub => a.wrapping_sub(c),
                B::Mul => a.wrapping_mul(c),
                B::UDiv => {
                    if c == 0 {
                        return Err(Stop::Mem("division by zero".into()));
                    }
                    a / c
                }
                B::URem => {
                    if c == 0 {
                        return Err(Stop::Mem("division by zero".into()));
                    }
                    a % c
                }
                B::SDiv => {
                    if c == 0 {
                        return Err(Stop::Mem("division by zero".into()));
                    }
                    sx(a).wrapping_div(sx(c)) as u64
                }
                B::SRem => {
                    if c == 0 {
                        return Err(Stop::Mem("division by zero".into()));
                    }
                    sx(a).wrapping_rem(sx(c)) as u64
                }
                B::Shl => {
                    if c >= w as u64 {
                        0
                    } else {
                        a << c
                    }
                }
                B::LShr => {
                    if c >= w as u64 {
                        0
                    } else {
                        a >> c
                    }
                }
                B::AShr => (sx(a) >> c.min(w as u64 - 1)) as u64,
                B::And => a & c,
                B::Or => a | c,
                B::Xor => a ^ c,
            };
            return Ok(Val::C(r & m));
        }
        let a = self.ex(x, w)?;
        let c = self.ex(y, w)?;
        let op = match b {
            B::Add => Op::Add,
            B::Sub => Op::Sub,
            B::Mul => Op::Mul,
            B::UDiv => Op::UDiv,
            B::SDiv => Op::SDiv,
            B::URem => Op::URem,
            B::SRem => Op::SRem,
            B::Shl => Op::Shl,
            B::LShr => Op::LShr,
            B::AShr => Op::AShr,
            B::And => Op::And,
            B::Or => Op::Or,
            B::Xor => Op::Xor,
        };
        let r = self.p.bin(op, a, c);
        Ok(self.mk(r, w))
    }
    fn icmp1(&mut self, p: P, w: u32, x: &Val, y: &Val) -> X<Val> {
        if let (Val::C(a), Val::C(c)) = (x, y) {
            let (a, c) = (*a, *c);
            let sx = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
            let r = match p {
                P::Eq => a == c,
                P::Ne => a != c,
                P::Ugt => a > c,
                P::Uge => a >= c,
                P::Ult => a < c,
                P::Ule => a <= c,
                P::Sgt => sx(a) > sx(c),
                P::Sge => sx(a) >= sx(c),
                P::Slt => sx(a) < sx(c),
                P::Sle => sx(a) <= sx(c),
            };
            return Ok(Val::C(r as u64));
        }
        let a = self.ex(x, w)?;
        let c = self.ex(y, w)?;
        let r = match p {
            P::Eq => self.p.bin(Op::Eq, a, c),
            P::Ne => {
                let e = self.p.bin(Op::Eq, a, c);
                self.p.not(e)
            }
            P::Ugt => self.p.bin(Op::Ult, c, a),
            P::Uge => self.p.bin(Op::Ule, c, a),
            P::Ult => self.p.bin(Op::Ult, a, c),
            P::Ule => self.p.bin(Op::Ule, a, c),
            P::Sgt => self.p.bin(Op::Slt, c, a),
            P::Sge => self.p.bin(Op::Sle, c, a),
            P::Slt => self.p.bin(Op::Slt, a, c),
            P::Sle => self.p.bin(Op::Sle, a, c),
        };
        Ok(self.mk(r, 1))
    }
    fn cast1(&mut self, k: u8, fw: u32, tw: u32, x: &Val) -> X<Val> {
        if let Val::C(c) = x {
            if tw <= 64 {
                return Ok(Val::C(match k {
                    0 => *c & mask(tw) as u64,
                    1 => *c,
                    _ => (sext128(*c as u128, fw) as u128 & mask(tw)) as u64,
                }));
            }
        }
        let e = self.ex(x, fw)?;
        let r = match k {
            0 => self.p.extract(e, 0, tw),
            1 => self.p.zext(e, tw),
            _ => self.p.sext(e, tw),
        };
        Ok(self.mk(r, tw))
    }
    fn lanes2(&mut self, n: u32, x: &Val, y: &Val, f: &mut dyn FnMut(&mut Exec, &Val, &Val) -> X<Val>) -> X<Val> {
        if n == 0 {
            return f(self, x, y);
        }
        match (x, y) {
            (Val::A(a), Val::A(b)) => {
                let mut v = Vec::with_capacity(n as usize);
                for i in 0..n as usize {
                    v.push(f(self, &a[i], &b[i])?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => unsup("vector operand"),
        }
    }
    fn select_val(&mut self, c: E, a: &Val, b: &Val, t: TyId) -> X<Val> {
        let m = self.m.clone();
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let mut v = vec![];
                for i in 0..x.len() {
                    let (_, et) = match m.ty(t) {
                        Ty::Struct(_, es) => (0, es[i]),
                        Ty::Array(_, e) | Ty::Vector(_, e) => (0, *e),
                        _ => return unsup("select type"),
                    };
                    v.push(self.select_val(c, &x[i], &y[i], et)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => {
                let w = match m.ty(t) {
                    Ty::Float(w) => *w,
                    _ => m.int_w(t).ok_or(Stop::Unsupported("select type".into()))?,
                };
                let x = self.ex(a, w)?;
                let y = self.ex(b, w)?;
                let r = self.p.ite(c, x, y);
                Ok(self.mk(r, w))
            }
        }
    }
    pub fn eq_sb(&mut self, a: &SB, b: &SB) -> E {
        if a.len() != b.len() {
            return self.p.konst(1, 0);
        }
        let mut r = self.p.konst(1, 1);
        for i in 0..a.len() {
            let (x, y) = (a.sym(i), b.sym(i));
            if x == 0 && y == 0 {
                if a.d[i] != b.d[i] {
                    return self.p.konst(1, 0);
                }
                continue;
            }
            if x == y {
                continue;
            }
            let x = if x != 0 { x } else { self.p.konst(8, a.d[i] as u128) };
            let y = if y != 0 { y } else { self.p.konst(8, b.d[i] as u128) };
            let e = self.p.bin(Op::Eq, x, y);
            r = self.p.bin(Op::And, e, r);
        }
        r
    }
    pub fn eval_sb(&self, m: &Model, b: &SB) -> Vec<u8> {
        (0..b.len())
            .map(|i| {
                let e = b.sym(i);
                if e == 0 {
                    b.d[i]
                } else {
                    self.p.eval(e, m) as u8
                }
            })
            .collect()
    }
    fn sb_of(&self, es: &[E]) -> SB {
        let mut d = vec![];
        let mut s = vec![];
        for e in es {
            match self.p.is_const(*e) {
                Some(k) => {
                    d.push(k as u8);
                    s.push(0);
                }
                None => {
                    d.push(0);
                    s.push(*e);
                }
            }
        }
        let any = s.iter().any(|e| *e != 0);
        SB { d, s: if any { Some(s) } else { None } }
    }
    // ---- primitives --------------------------------------------------
    fn real_hash(&mut self, alg: u64, d: &[u8], outlen: usize) -> Option<Vec<u8>> {
        let k = (alg << 32 | outlen as u64, d.to_vec());
        if let Some(v) = self.prim_cache.get(&k) {
            return Some(v.clone());
        }
        let v = prims::hash(alg, d, outlen)?;
        if d.len() < 4096 {
            self.prim_cache.insert(k, v.clone());
        }
        Some(v)
    }
    fn prim_hash(&mut self, st: &mut State, alg: u64, inp: SB, outlen: usize) -> X<SB> {
        for c in st.hashes.iter() {
            if c.alg == alg && *c.inp == inp && c.out.len() == outlen {
                return Ok((*c.out).clone());
            }
        }
        if inp.is_concrete() {
            self.st.prim_conc += 1;
            let v = match self.real_hash(alg, &inp.d, outlen) {
                Some(v) => v,
                None => return unsup(format!("primitive {} rejected its input", alg)),
            };
            let out = SB::concrete(v);
            let hc = HashCall { alg, inp: Rc::new(inp), out: Rc::new(out.clone()) };
            // relate to earlier symbolic calls
            let calls = st.calls.clone();
            for (k, c) in calls.iter().enumerate() {
                if c.kind == 0 && st.active[k] {
                    let o = st.hashes[c.idx as usize].clone();
                    if let Some(r) = self.rel_hash(&o, &hc) {
                        if !self.constrain(st, r)? {
                            return Err(Stop::Pruned);
                        }
                    }
                }
            }
            Rc::make_mut(&mut st.hashes).push(hc);
            return Ok(out);
        }
        self.st.prim_sym += 1;
        let es = self.fresh(st, outlen as u32, 8, &[]);
        let out = self.sb_of(&es);
        let base = st.nvars - outlen as u32;
        let idx = st.hashes.len();
        self.add_call(st, 0, idx, base, outlen as u32, &[&inp]);
        Rc::make_mut(&mut st.hashes).push(HashCall { alg, inp: Rc::new(inp), out: Rc::new(out.clone()) });
        self.init_call(st)?;
        Ok(out)
    }
    /// Give the newest call's output its value in the current model.
    fn init_call(&mut self, st: &mut State) -> X<()> {
        let k = st.calls.len() - 1;
        let c = st.calls[k].clone();
        let m = st.model.clone();
        let act = st.active.clone();
        if let Some(v) = self.call_value(st, &c, &m, &act) {
            let mut vals = m.vals.clone();
            vals.resize(st.nvars as usize, 0);
            for (i, b) in v.iter().enumerate() {
                vals[c.base as usize + i] = *b as u128;
            }
            let n = Model::new(vals);
            *n.cache.borrow_mut() = m.cache.borrow().clone();
            st.model = Rc::new(n);
        }
        Ok(())
    }
    fn prim_block(&mut self, st: &mut State, alg: u64, dec: bool, key: SB, inp: SB) -> X<SB> {
        if key.is_concrete() && inp.is_concrete() {
            self.st.prim_conc += 1;
            let x: [u8; 16] = inp.d.clone().try_into().map_err(|_| Stop::Unsupported("block size".into()))?;
            return match prims::block(alg, dec, &key.d, &x) {
                Some(v) => {
                    let out = SB::concrete(v.to_vec());
                    if st.blocks.len() < 4096 {
                        let (x, y) = if dec { (out.clone(), inp) } else { (inp, out.clone()) };
                        let bc = BlockCall { alg, key: Rc::new(key), x: Rc::new(x), y: Rc::new(y) };
                        let calls = st.calls.clone();
                        for (k, c) in calls.iter().enumerate() {
                            if (c.kind == 1 || c.kind == 2) && st.active[k] {
                                let o = st.blocks[c.idx as usize].clone();
                                if let Some(r) = self.rel_block(&o, &bc) {
                                    if !self.constrain(st, r)? {
                                        return Err(Stop::Pruned);
                                    }
                                }
                            }
                        }
                        Rc::make_mut(&mut st.blocks).push(bc);
                    }
                    Ok(out)
                }
                None => unsup("block primitive"),
            };
        }
        for c in st.blocks.iter() {
            if c.alg == alg && *c.key == key {
                if !dec && *c.x == inp {
                    return Ok((*c.y).clone());
                }
                if dec && *c.y == inp {
                    return Ok((*c.x).clone());
                }
            }
        }
        self.st.prim_sym += 1;
        let es = self.fresh(st, 16, 8, &[]);
        let out = self.sb_of(&es);
        let base = st.nvars - 16;
        let idx = st.blocks.len();
        self.add_call(st, if dec { 2 } else { 1 }, idx, base, 16, &[&key, &inp]);
        let (x, y) = if dec { (out.clone(), inp) } else { (inp, out.clone()) };
        Rc::make_mut(&mut st.blocks).push(BlockCall { alg, key: Rc::new(key), x: Rc::new(x), y: Rc::new(y) });
        self.init_call(st)?;
        Ok(out)
    }
    fn prim_ks(&mut self, st: &mut State, alg: u64, key: SB, iv: SB, pos: u64, len: usize) -> X<SB> {
        if key.is_concrete() && iv.is_concrete() {
            self.st.prim_conc += 1;
            return match prims::keystream(alg, &key.d, &iv.d, pos, len) {
                Some(v) => Ok(SB::concrete(v)),
                None => unsup("keystream primitive"),
            };
        }
        self.st.prim_sym += 1;
        let mut es = vec![];
        for i in 0..len {
            let q = pos + i as u64;
            let hit = st
                .kss
                .iter()
                .find(|c| c.pos == q && c.alg == alg && *c.key == key && *c.iv == iv)
                .map(|c| c.byte);
            let e = match hit {
                Some(e) => e,
                None => {
                    let e = self.fresh(st, 1, 8, &[])[0];
                    let base = st.nvars - 1;
                    let idx = st.kss.len();
                    self.add_call(st, 3, idx, base, 1, &[&key, &iv]);
                    Rc::make_mut(&mut st.kss).push(KsCall {
                        alg,
                        key: Rc::new(key.clone()),
                        iv: Rc::new(iv.clone()),
                        pos: q,
                        byte: e,
                    });
                    self.init_call(st)?;
                    e
                }
            };
            es.push(e);
        }
        Ok(self.sb_of(&es))
    }
    /// A model of the path in which every symbolic primitive call returns what
    /// the real primitive returns; None if the solver finds none.
    pub fn realise(&mut self, st: &State, extra: &[E]) -> X<Option<Rc<Model>>> {
        let mut w = st.clone();
        for &e in extra {
            if !self.constrain(&mut w, e)? {
                return Ok(None);
            }
        }
        // all symbolic calls as (inputs, output, evaluator)
        enum C {
            H(HashCall),
            B(BlockCall),
            K(KsCall),
        }
        let mut calls: Vec<(u32, C)> = vec![];
        let first = |s: &Exec, b: &SB| -> u32 {
            (0..b.len())
                .filter_map(|i| {
                    let e = b.sym(i);
                    if e != 0 {
                        let n = s.p.n(e);
                        if n.op == Op::Var {
                            return Some(n.a);
                        }
                    }
                    None
                })
                .min()
                .unwrap_or(u32::MAX)
        };
        for c in st.hashes.iter() {
            if !c.out.is_concrete() {
                calls.push((first(self, &c.out), C::H(c.clone())));
            }
        }
        for c in st.blocks.iter() {
            if !(c.x.is_concrete() && c.y.is_concrete() && c.key.is_concrete()) {
                // the later of x / y was created by this call
                let f = match (first(self, &c.x), first(self, &c.y)) {
                    (u32::MAX, b) => b,
                    (a, u32::MAX) => a,
                    (a, b) => a.max(b),
                };
                calls.push((f, C::B(c.clone())));
            }
        }
        for c in st.kss.iter() {
            calls.push((self.p.n(c.byte).a, C::K(c.clone())));
        }
        calls.sort_by_key(|c| c.0);
        for (_, c) in calls {
            let (ins, outs, real): (Vec<SB>, SB, Option<Vec<u8>>) = match &c {
                C::H(h) => {
                    let i = self.eval_sb(&w.model, &h.inp);
                    let r = self.real_hash(h.alg, &i, h.out.len());
                    (vec![(*h.inp).clone()], (*h.out).clone(), r)
                }
                C::B(b) => {
                    let k = self.eval_sb(&w.model, &b.key);
                    let fx = first(self, &b.x);
                    let fy = first(self, &b.y);
                    // direction: the side made of plain fresh variables of higher index is the output
                    let dec = fx != u32::MAX && (fy == u32::MAX || fx > fy);
                    let (i, o) = if dec { (&b.y, &b.x) } else { (&b.x, &b.y) };
                    let iv = self.eval_sb(&w.model, i);
                    let r = iv
                        .try_into()
                        .ok()
                        .and_then(|x: [u8; 16]| prims::block(b.alg, dec, &k, &x).map(|v| v.to_vec()));
                    (vec![(*b.key).clone(), (**i).clone()], (**o).clone(), r)
                }
                C::K(kc) => {
                    let k = self.eval_sb(&w.model, &kc.key);
                    let v = self.eval_sb(&w.model, &kc.iv);
                    let r = prims::keystream(kc.alg, &k, &v, kc.pos, 1);
                    let o = self.sb_of(&[kc.byte]);
                    (vec![(*kc.key).clone(), (*kc.iv).clone()], o, r)
                }
            };
            let real = match real {
                Some(r) => r,
                None => return Ok(None),
            };
            if self.eval_sb(&w.model, &outs) == real {
                // pin what was evaluated so that later repairs keep it
                continue;
            }
            if self.o.trace {
                let k = match &c { C::H(_) => 0, C::B(_) => 1, C::K(_) => 2 };
                eprintln!("mismatch kind {} {} inlen {} {:x?} {:x?} ", k, self.p.show(outs.sym(0), 3), ins[0].len(), self.eval_sb(&w.model, &outs), real);
            }
            // pin inputs to their current values and the output to the real one
            let mut cs = vec![];
            for i in &ins {
                let v = self.eval_sb(&w.model, i);
                let k = SB::concrete(v);
                cs.push(self.eq_sb(i, &k));
            }
            let k = SB::concrete(real);
            cs.push(self.eq_sb(&outs, &k));
            match self.feasible(&w, &cs)? {
                Some(m) => {
                    w.model = m;
                    for c in cs {
                        self.add_pc(&mut w, c)?;
                    }
                }
                None => return Ok(None),
            }
        }
        // final consistency: every call really matches
        for c in st.hashes.iter() {
            let i = self.eval_sb(&w.model, &c.inp);
            match self.real_hash(c.alg, &i, c.out.len()) {
                Some(r) if r == self.eval_sb(&w.model, &c.out) => {}
                _ => return Ok(None),
            }
        }
        for c in st.blocks.iter() {
            let k = self.eval_sb(&w.model, &c.key);
            let x: [u8; 16] = match self.eval_sb(&w.model, &c.x).try_into() {
                Ok(x) => x,
                Err(_) => return Ok(None),
            };
            match prims::block(c.alg, false, &k, &x) {
                Some(r) if r.to_vec() == self.eval_sb(&w.model, &c.y) => {}
                _ => return Ok(None),
            }
        }
        self.st.realised += 1;
        Ok(Some(w.model.clone()))
    }
    fn hex(b: &[u8]) -> String {
        b.iter().map(|x| format!("{:02x}", x)).collect()
    }
    pub fn render_log(&self, st: &State, m: &Model) -> Vec<String> {
        st.log
            .iter()
            .map(|l| match l {
                Log::Bytes(n, v, c) => {
                    let b: Vec<u8> = (0..*c).map(|i| m.get(v + i) as u8).collect();
                    format!("B {} {}", if n.is_empty() { "-" } else { n }, Self::hex(&b))
                }
                Log::Choose(n, v) => format!("C {} {}", n, v),
            })
            .collect()
    }
    fn stack(&self, st: &State) -> String {
        let v: Vec<String> = st
            .frames
            .iter()
            .rev()
            .take(12)
            .map(|f| {
                let fun = &self.m.funcs[f.f as usize];
                let dbg = fun.blocks[f.blk as usize].insts.get(f.pc.saturating_sub(1) as usize).map(|i| i.dbg).unwrap_or(0);
                match self.m.locate(dbg) {
                    Some((file, line, _)) => format!("{}:{}", file, line),
                    None => fun.name.clone(),
                }
            })
            .collect();
        v.join(" < ")
    }
    fn violation(&mut self, st: &State, kind: &str, what: &str, extra: &[E]) -> X<()> {
        let same = self.viols.iter().filter(|v| v.job == st.job && v.kind == kind && v.what == what).count();
        if same >= self.o.max_viol {
            return Ok(());
        }
        let (m, real) = match self.realise(st, extra)? {
            Some(m) => (m, true),
            None => match self.feasible(st, extra)? {
                Some(m) => (m, false),
                None => return Ok(()),
            },
        };
        let log = self.render_log(st, &m);
        let at = self.stack(st);
        self.viols.push(Viol { job: st.job, kind: kind.into(), what: what.into(), at, log, real });
        Ok(())
    }
    fn finish(&mut self, st: &State, stop: Stop) {
        let kind = match &stop {
            Stop::Done => "done",
            Stop::Pruned => "pruned",
            Stop::Panic(_) => "panic",
            Stop::Alloc(_) => "alloc",
            Stop::Hang(_) => "hang",
            Stop::Mem(_) => "memory",
            Stop::Unsupported(_) => "unsupported",
            Stop::Incomplete(_) => "incomplete",
        };
        *self.end_kinds.entry((st.job, kind.to_string())).or_insert(0) += 1;
        let r: X<()> = (|| {
            match &stop {
                Stop::Done => {
                    self.st.paths += 1;
                    for c in &st.covers {
                        *self.covers.entry((st.job, *c)).or_insert(0) += 1;
                    }
                    self.sample(st, "done")?;
                }
                Stop::Pruned => self.st.pruned += 1,
                Stop::Panic(s) => {
                    self.st.paths += 1;
                    self.st.panics += 1;
                    if st.panic_ok {
                        self.sample(st, "panic")?;
                    } else {
                        self.violation(st, "panic", s, &[])?;
                    }
                }
                Stop::Alloc(s) => {
                    self.st.paths += 1;
                    self.violation(st, "alloc", s, &[])?;
                }
                Stop::Hang(s) => {
                    self.st.paths += 1;
                    self.violation(st, "hang", s, &[])?;
                }
                Stop::Mem(s) => {
                    let at = self.stack(st);
                    self.incomplete.push((st.job, format!("memory error: {} at {}", s, at)));
                }
                Stop::Unsupported(s) => {
                    let at = self.stack(st);
                    self.incomplete.push((st.job, format!("unsupported: {} at {}", s, at)));
                }
                Stop::Incomplete(s) => {
                    let at = self.stack(st);
                    self.incomplete.push((st.job, format!("{} at {}", s, at)));
                }
            }
            Ok(())
        })();
        if let Err(e) = r {
            self.incomplete.push((st.job, format!("while finishing a path: {:?}", e)));
        }
    }
    fn sample(&mut self, st: &State, end: &str) -> X<()> {
        // exponentially thinning sample of completed paths, counted over all processes
        let (n, kept) = crate::shared::sample(st.job);
        if kept >= self.o.keep || (n > 3 && n % (1 + n / 4) != 0) {
            return Ok(());
        }
        crate::shared::sample_kept();
        let (m, real) = match self.realise(st, &[])? {
            Some(m) => (m, true),
            None => (st.model.clone(), false),
        };
        let log = self.render_log(st, &m);
        let obs = st
            .obs
            .iter()
            .map(|(t, b)| format!("{} {}", t, Self::hex(&self.eval_sb(&m, b))))
            .collect();
        self.samples.push(Sample { job: st.job, log, obs, end: end.into(), real });
        Ok(())
    }
    // ---- main loop ---------------------------------------------------
    /// Run one state to its end (forks go to self.work).
    pub fn run(&mut self, mut st: State) {
        let r = self.run_inner(&mut st);
        match r {
            Ok(()) => self.finish(&st, Stop::Done),
            Err(s) => self.finish(&st, s),
        }
    }
    #[inline]
    fn get(&self, fr: &Frame, o: Opd) -> Val {
        match o {
            Opd::R(r) => fr.regs[r as usize].clone(),
            Opd::K(k) => self.m.consts[k as usize].clone(),
        }
    }
    fn goto(&mut self, st: &mut State, m: &Module, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let fun = &m.funcs[fr.f as usize];
        let from = fr.blk;
        let b = &fun.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, inc) = &b.phis[0];
                let mut hit = false;
                for (bb, o) in inc {
                    if *bb == from {
                        hit = true;
                        let v = match *o {
                            Opd::R(r) => fr.regs[r as usize].clone(),
                            Opd::K(k) => m.consts[k as usize].clone(),
                        };
                        fr.regs[*d as usize] = v;
                        break;
                    }
                }
                assert!(hit, "phi without an entry for its predecessor in {}", fun.name);
            } else {
                let mut vals = Vec::with_capacity(b.phis.len());
                for (_, inc) in &b.phis {
                    let v = match inc.iter().find(|i| i.0 == from) {
                        Some((_, Opd::R(r))) => fr.regs[*r as usize].clone(),
                        Some((_, Opd::K(k))) => m.consts[*k as usize].clone(),
                        None => panic!("phi without an entry for its predecessor in {} {} {}", fun.name, from, to),
                    };
                    vals.push(v);
                }
                for ((d, _), v) in b.phis.iter().zip(vals) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.blk = to;
        fr.pc = 0;
        self.cover_blk[(fun.blk_base + to) as usize] = true;
    }
    fn addr(&mut self, st: &mut State, v: Val, o: Opd) -> X<u64> {
        match v {
            Val::C(c) => Ok(c),
            x => {
                let k = self.concretize(st, &x, 64)?;
                if let Opd::R(r) = o {
                    st.frames.last_mut().unwrap().regs[r as usize] = Val::C(k);
                }
                Ok(k)
            }
        }
    }
    fn run_inner(&mut self, st: &mut State) -> X<()> {
        let m = self.m.clone();
        let mut since = 0u32;
        loop {
            since += 1;
            if since & 0xffff == 0 && std::time::Instant::now() > self.deadline {
                return Err(Stop::Incomplete("time budget exhausted".into()));
            }
            let (inst, regs_len) = {
                let fr = st.frames.last().unwrap();
                let b = &m.funcs[fr.f as usize].blocks[fr.blk as usize];
                (&b.insts[fr.pc as usize], fr.regs.len())
            };
            let _ = regs_len;
            st.steps += 1;
            self.st.insts += 1;
            if st.long_ok != 0 && st.steps > st.long_ok {
                return Err(Stop::Pruned);
            }
            if st.steps > self.o.max_steps {
                let at = self.stack(st);
                return Err(Stop::Hang(at));
            }
            macro_rules! fr {
                () => {
                    st.frames.last_mut().unwrap()
                };
            }
            macro_rules! g {
                ($o:expr) => {{
                    let fr = st.frames.last().unwrap();
                    match $o {
                        Opd::R(r) => fr.regs[r as usize].clone(),
                        Opd::K(k) => m.consts[k as usize].clone(),
                    }
                }};
            }
            let res: Val = match &inst.i {
                I::Bin(b, w, n, x, y) => {
                    let (x, y) = (g!(*x), g!(*y));
                    if *n == 0 {
                        if matches!(b, B::UDiv | B::SDiv | B::URem | B::SRem) {
                            if let Val::X(e) = &y {
                                if self.p.is_const(*e).is_none() {
                                    let z = self.p.konst(*w, 0);
                                    let c = self.p.bin(Op::Eq, *e, z);
                                    if self.decide(st, c)? {
                                        return Err(Stop::Mem("division by zero".into()));
                                    }
                                }
                            }
                        }
                        self.bin1(*b, *w, &x, &y)?
                    } else {
                        let (b, w) = (*b, *w);
                        self.lanes2(*n, &x, &y, &mut |s, a, c| s.bin1(b, w, a, c))?
                    }
                }
                I::Icmp(p, w, n, x, y) => {
                    let (x, y) = (g!(*x), g!(*y));
                    if *n == 0 {
                        self.icmp1(*p, *w, &x, &y)?
                    } else {
                        let (p, w) = (*p, *w);
                        self.lanes2(*n, &x, &y, &mut |s, a, c| s.icmp1(p, w, a, c))?
                    }
                }
                I::Trunc(fw, tw, n, x) | I::Zext(fw, tw, n, x) | I::Sext(fw, tw, n, x) => {
                    let k = match &inst.i {
                        I::Trunc(..) => 0,
                        I::Zext(..) => 1,
                        _ => 2,
                    };
                    let v = g!(*x);
                    if *n == 0 {
                        self.cast1(k, *fw, *tw, &v)?
                    } else {
                        match &v {
                            Val::A(vs) => {
                                let mut r = vec![];
                                for x in vs.iter() {
                                    r.push(self.cast1(k, *fw, *tw, x)?);
                                }
                                Val::A(Rc::new(r))
                            }
                            _ => return unsup("vector cast"),
                        }
                    }
                }
                I::Copy(x) => g!(*x),
                I::Bitcast(ft, tt, x) => {
                    let v = g!(*x);
                    let lanes = |t: TyId| -> X<(u32, u32)> {
                        match m.ty(t) {
                            Ty::Vector(n, e) => match m.ty(*e) {
                                Ty::Float(w) => Ok((*w, *n)),
                                _ => Ok((m.int_w(*e).ok_or(Stop::Unsupported("bitcast".into()))?, *n)),
                            },
                            Ty::Float(w) => Ok((*w, 0)),
                            _ => Ok((m.int_w(t).ok_or(Stop::Unsupported("bitcast".into()))?, 0)),
                        }
                    };
                    let (fw, fnn) = lanes(*ft)?;
                    let (tw, tn) = lanes(*tt)?;
                    if fnn == 0 && tn == 0 {
                        v
                    } else if fnn == tn {
                        v
                    } else if fw * fnn.max(1) > 128 {
                        // lane-wise regrouping of wide vectors
                        let vs = match &v {
                            Val::A(a) => a.clone(),
                            _ => return unsup("wide bitcast"),
                        };
                        let mut r = vec![];
                        if tw > fw && tw % fw == 0 {
                            let k = (tw / fw) as usize;
                            for ch in vs.chunks(k) {
                                let mut e = 0;
                                for x in ch {
                                    let q = self.ex(x, fw)?;
                                    e = if e == 0 { q } else { self.p.concat(q, e) };
                                }
                                r.push(self.mk(e, tw));
                            }
                        } else if fw % tw == 0 {
                            for x in vs.iter() {
                                let q = self.ex(x, fw)?;
                                for j in 0..fw / tw {
                                    let y = self.p.extract(q, j * tw, tw);
                                    r.push(self.mk(y, tw));
                                }
                            }
                        } else {
                            return unsup("wide bitcast");
                        }
                        Val::A(Rc::new(r))
                    } else {
                        let e = self.to_bits(&v, fw, fnn.max(1))?;
                        if tn == 0 {
                            self.mk(e, tw)
                        } else {
                            let mut r = vec![];
                            for i in 0..tn {
                                let x = self.p.extract(e, i * tw, tw);
                                r.push(self.mk(x, tw));
                            }
                            Val::A(Rc::new(r))
                        }
                    }
                }
                I::Select(t, vec, c, a, b) => {
                    let cv = g!(*c);
                    if *vec {
                        let (a, b) = (g!(*a), g!(*b));
                        match (&cv, &a, &b) {
                            (Val::A(cs), Val::A(x), Val::A(y)) => {
                                let et = match m.ty(*t) {
                                    Ty::Vector(_, e) => *e,
                                    _ => return unsup("vector select"),
                                };
                                let mut r = vec![];
                                for i in 0..cs.len() {
                                    let ce = self.ex(&cs[i], 1)?;
                                    r.push(self.select_val(ce, &x[i], &y[i], et)?);
                                }
                                Val::A(Rc::new(r))
                            }
                            _ => return unsup("vector select"),
                        }
                    } else {
                        match cv {
                            Val::C(k) => {
                                if k & 1 == 1 {
                                    g!(*a)
                                } else {
                                    g!(*b)
                                }
                            }
                            Val::X(e) => {
                                let (a, b) = (g!(*a), g!(*b));
                                self.select_val(e, &a, &b, *t)?
                            }
                            _ => return unsup("select cond"),
                        }
                    }
                }
                I::Load(t, p) => {
                    let pv = g!(*p);
                    match pv {
                        Val::C(a) => self.load(st, a, *t)?,
                        Val::X(e) => match self.load_sym(st, e, *t)? {
                            Some(v) => v,
                            None => {
                                let a = self.addr(st, Val::X(e), *p)?;
                                self.load(st, a, *t)?
                            }
                        },
                        _ => return unsup("load address"),
                    }
                }
                I::Store(t, v, p) => {
                    let pv = g!(*p);
                    let a = self.addr(st, pv, *p)?;
                    let v = g!(*v);
                    self.store(st, a, *t, &v)?;
                    fr!().pc += 1;
                    continue;
                }
                I::Gep(b, off, dynv) => {
                    let base = g!(*b);
                    if let Val::C(c) = base {
                        let mut acc = c.wrapping_add(*off as u64);
                        let mut symb: Option<E> = None;
                        for (o, w, s) in dynv.iter() {
                            match g!(*o) {
                                Val::C(k) => {
                                    let ix = sext128(k as u128, *w) as i64;
                                    acc = acc.wrapping_add(ix.wrapping_mul(*s) as u64);
                                }
                                Val::X(e) => {
                                    let e = if *w < 64 { self.p.sext(e, 64) } else { e };
                                    let sk = self.p.konst(64, *s as u64 as u128);
                                    let t = self.p.bin(Op::Mul, e, sk);
                                    symb = Some(match symb {
                                        None => t,
                                        Some(q) => self.p.bin(Op::Add, q, t),
                                    });
                                }
                                _ => return unsup("gep index"),
                            }
                        }
                        match symb {
                            None => Val::C(acc),
                            Some(e) => {
                                let k = self.p.konst(64, acc as u128);
                                let r = self.p.bin(Op::Add, e, k);
                                self.mk(r, 64)
                            }
                        }
                    } else {
                        let mut e = self.ex(&base, 64)?;
                        let k = self.p.konst(64, *off as u64 as u128);
                        e = self.p.bin(Op::Add, e, k);
                        for (o, w, s) in dynv.iter() {
                            let v = g!(*o);
                            let ix = self.ex(&v, *w)?;
                            let ix = if *w < 64 { self.p.sext(ix, 64) } else { ix };
                            let sk = self.p.konst(64, *s as u64 as u128);
                            let t = self.p.bin(Op::Mul, ix, sk);
                            e = self.p.bin(Op::Add, e, t);
                        }
                        self.mk(e, 64)
                    }
                }
                I::Call(ci) => {
                    let f = match &ci.callee {
                        Callee::Direct(f) => *f,
                        Callee::Indirect(o) => {
                            let v = g!(*o);
                            let a = self.addr(st, v, *o)?;
                            if a >> 32 != OBJ_FUNC || a & 15 != 0 {
                                return Err(Stop::Mem(format!("call to {:#x}", a)));
                            }
                            ((a & 0xffff_ffff) / 16 - 1) as u32
                        }
                        Callee::Asm(s) => {
                            if s.is_empty() {
                                // optimisation barrier: the value passes through
                                let v = match ci.args.first() {
                                    Some(a) => g!(*a),
                                    None => Val::C(0),
                                };
                                let fr = fr!();
                                if inst.dst != NONE {
                                    fr.regs[inst.dst as usize] = v;
                                }
                                fr.pc += 1;
                                continue;
                            }
                            if s.contains("cpuid") {
                                let z = m.zero(&mut self.p, ci.ret);
                                let fr = fr!();
                                if inst.dst != NONE {
                                    fr.regs[inst.dst as usize] = z;
                                }
                                fr.pc += 1;
                                continue;
                            }
                            return unsup(format!("asm {}", s));
                        }
                    };
                    match self.ext[f as usize] {
                        Some(x) => {
                            let mut args: Vec<Val> = Vec::with_capacity(ci.args.len());
                            for a in &ci.args {
                                args.push(g!(*a));
                            }
                            let r = self.external(st, x, f, ci, args)?;
                            let fr = fr!();
                            if inst.dst != NONE {
                                fr.regs[inst.dst as usize] = r;
                            }
                            if ci.normal != NONE {
                                self.goto(st, &m, ci.normal);
                            } else {
                                fr.pc += 1;
                            }
                            continue;
                        }
                        None => {
                            let mut args: Vec<Val> = Vec::with_capacity(ci.args.len());
                            for a in &ci.args {
                                args.push(g!(*a));
                            }
                            fr!().pc += 1;
                            if st.frames.len() > 4000 {
                                return Err(Stop::Hang("call depth".into()));
                            }
                            self.push_frame(st, f, args, inst.dst, ci.normal);
                            continue;
                        }
                    }
                }
                I::Br(t) => {
                    self.goto(st, &m, *t);
                    continue;
                }
                I::CondBr(c, t, f) => {
                    let cv = g!(*c);
                    let take = match cv {
                        Val::C(k) => k & 1 == 1,
                        Val::X(e) => self.decide(st, e)?,
                        _ => return unsup("branch on aggregate"),
                    };
                    self.goto(st, &m, if take { *t } else { *f });
                    continue;
                }
                I::Switch(w, v, d, cases) => {
                    let vv = g!(*v);
                    let to = match vv {
                        Val::C(k) => cases.iter().find(|c| c.0 == k as u128).map(|c| c.1).unwrap_or(*d),
                        Val::X(e) => self.switch_sym(st, e, *w, *d, cases)?,
                        _ => return unsup("switch on aggregate"),
                    };
                    self.goto(st, &m, to);
                    continue;
                }
                I::Ret(v) => {
                    let rv = match v {
                        Some(o) => g!(*o),
                        None => Val::C(0),
                    };
                    let fr = st.frames.pop().unwrap();
                    if fr.fobj != 0 {
                        st.mem.free(fr.fobj).map_err(Stop::Mem)?;
                    }
                    if st.frames.is_empty() {
                        return Ok(());
                    }
                    let caller = fr!();
                    if fr.ret_dst != NONE {
                        caller.regs[fr.ret_dst as usize] = rv;
                    }
                    if fr.ret_blk != NONE {
                        self.goto(st, &m, fr.ret_blk);
                    }
                    continue;
                }
                I::Unreachable => return Err(Stop::Mem("reached unreachable".into())),
                I::Alloca(off) => Val::C(st.frames.last().unwrap().fobj + *off as u64),
                I::ExtractValue(a, ix) => {
                    let mut v = g!(*a);
                    for i in ix.iter() {
                        v = match &v {
                            Val::A(vs) => vs[*i as usize].clone(),
                            _ => return unsup("extractvalue"),
                        };
                    }
                    v
                }
                I::InsertValue(a, x, ix) => {
                    let v = g!(*a);
                    let x = g!(*x);
                    fn ins(v: &Val, ix: &[u32], x: Val) -> Option<Val> {
                        if ix.is_empty() {
                            return Some(x);
                        }
                        match v {
                            Val::A(vs) => {
                                let mut n = (**vs).clone();
                                n[ix[0] as usize] = ins(&vs[ix[0] as usize], &ix[1..], x)?;
                                Some(Val::A(Rc::new(n)))
                            }
                            _ => None,
                        }
                    }
                    match ins(&v, ix, x) {
                        Some(v) => v,
                        None => return unsup("insertvalue"),
                    }
                }
                I::ExtractElement(a, i) => {
                    let iv = g!(*i);
                    let ix = self.addr(st, iv, *i)? as usize;
                    match g!(*a) {
                        Val::A(vs) if ix < vs.len() => vs[ix].clone(),
                        _ => return unsup("extractelement"),
                    }
                }
                I::InsertElement(a, x, i) => {
                    let iv = g!(*i);
                    let ix = self.addr(st, iv, *i)? as usize;
                    let x = g!(*x);
                    match g!(*a) {
                        Val::A(vs) if ix < vs.len() => {
                            let mut n = (*vs).clone();
                            n[ix] = x;
                            Val::A(Rc::new(n))
                        }
                        _ => return unsup("insertelement"),
                    }
                }
                I::Shuffle(n, _t, a, b, mk) => {
                    let (a, b) = (g!(*a), g!(*b));
                    match (&a, &b) {
                        (Val::A(x), Val::A(y)) => {
                            let n = *n as usize;
                            let r: Vec<Val> = mk
                                .iter()
                                .map(|&i| {
                                    let i = i.max(0) as usize;
                                    if i < n {
                                        x[i].clone()
                                    } else {
                                        y[i - n].clone()
                                    }
                                })
                                .collect();
                            Val::A(Rc::new(r))
                        }
                        _ => return unsup("shuffle"),
                    }
                }
                I::AtomicRmw(op, t, p, v) => {
                    let pv = g!(*p);
                    let a = self.addr(st, pv, *p)?;
                    let old = self.load(st, a, *t)?;
                    let v = g!(*v);
                    let w = m.int_w(*t).unwrap_or(64);
                    let nv = match op.as_str() {
                        "xchg" => v,
                        "add" => self.bin1(B::Add, w, &old, &v)?,
                        "sub" => self.bin1(B::Sub, w, &old, &v)?,
                        "and" => self.bin1(B::And, w, &old, &v)?,
                        "or" => self.bin1(B::Or, w, &old, &v)?,
                        "xor" => self.bin1(B::Xor, w, &old, &v)?,
                        _ => return unsup(format!("atomicrmw {}", op)),
                    };
                    self.store(st, a, *t, &nv)?;
                    old
                }
                I::CmpXchg(t, p, c, n) => {
                    let pv = g!(*p);
                    let a = self.addr(st, pv, *p)?;
                    let old = self.load(st, a, *t)?;
                    let c = g!(*c);
                    let w = m.int_w(*t).unwrap_or(64);
                    let eq = self.icmp1(P::Eq, w, &old, &c)?;
                    match eq {
                        Val::C(k) => {
                            if k == 1 {
                                let n = g!(*n);
                                self.store(st, a, *t, &n)?;
                            }
                        }
                        _ => return unsup("symbolic cmpxchg"),
                    }
                    Val::A(Rc::new(vec![old, eq]))
                }
                I::Nop => {
                    fr!().pc += 1;
                    continue;
                }
                I::Unsupported(s) => return unsup(s.clone()),
            };
            let fr = fr!();
            if inst.dst != NONE {
                fr.regs[inst.dst as usize] = res;
            }
            fr.pc += 1;
        }
    }
    fn switch_sym(&mut self, st: &mut State, e: E, w: u32, d: u32, cases: &[(u128, u32)]) -> X<u32> {
        // group by target
        let mut groups: Vec<(u32, E)> = vec![];
        let mut none = self.p.konst(1, 1);
        for (k, t) in cases {
            let kc = self.p.konst(w, *k);
            let eq = self.p.bin(Op::Eq, e, kc);
            let ne = self.p.not(eq);
            none = self.p.bin(Op::And, ne, none);
            match groups.iter_mut().find(|g| g.0 == *t) {
                Some(g) => g.1 = self.p.bin(Op::Or, g.1, eq),
                None => groups.push((*t, eq)),
            }
        }
        match groups.iter_mut().find(|g| g.0 == d) {
            Some(g) => g.1 = self.p.bin(Op::Or, g.1, none),
            None => groups.push((d, none)),
        }
        let mine = groups
            .iter()
            .position(|g| self.eval(st, g.1) == 1)
            .ok_or(Stop::Incomplete("switch".into()))?;
        let mut forked = false;
        for (i, (_, c)) in groups.iter().enumerate() {
            if i == mine {
                continue;
            }
            if let Some(m) = self.feasible(st, &[*c])? {
                let mut o = st.clone();
                o.model = m;
                self.add_pc(&mut o, *c)?;
                self.st.forks += 1;
                self.work.push(o);
                forked = true;
            }
        }
        if forked {
            self.add_pc(st, groups[mine].1)?;
        }
        Ok(groups[mine].0)
    }
    // ---- calls outside the program ------------------------------------
    fn argc(&mut self, st: &mut State, ci: &CallInfo, args: &[Val], i: usize, w: u32) -> X<u64> {
        match &args[i] {
            Val::C(c) => Ok(*c),
            v => {
                let k = self.concretize(st, v, w)?;
                if let Opd::R(r) = ci.args[i] {
                    st.frames.last_mut().unwrap().regs[r as usize] = Val::C(k);
                }
                Ok(k)
            }
        }
    }
    fn lanes_of(&self, t: TyId) -> (u32, u32) {
        match self.m.ty(t) {
            Ty::Vector(n, e) => (self.m.int_w(*e).unwrap_or(0), *n),
            _ => (self.m.int_w(t).unwrap_or(0), 0),
        }
    }
    fn alloc(&mut self, st: &mut State, ci: &CallInfo, args: &[Val], i: usize) -> X<u64> {
        if let Val::X(e) = &args[i] {
            if self.p.is_const(*e).is_none() {
                let lim = self.p.konst(64, st.max_alloc as u128);
                let big = self.p.bin(Op::Ult, lim, *e);
                if self.decide(st, big)? {
                    return Err(Stop::Alloc("a single allocation larger than the limit".into()));
                }
            }
        }
        let n = self.argc(st, ci, args, i, 64)?;
        if n > st.max_alloc {
            return Err(Stop::Alloc("a single allocation larger than the limit".into()));
        }
        Ok(n)
    }
    fn external(&mut self, st: &mut State, x: Ext, f: u32, ci: &CallInfo, args: Vec<Val>) -> X<Val> {
        use Ext::*;
        let m = self.m.clone();
        Ok(match x {
            Nop => Val::C(0),
            Assume => Val::C(0),
            Zero => Val::C(0),
            MinusOne => Val::C(mask(self.lanes_of(ci.ret).0.max(1).min(64)) as u64),
            // standard output and standard error swallow everything, anything else fails
            WriteFd => {
                let fd = self.argc(st, ci, &args, 0, 32)? as u32;
                if fd == 1 || fd == 2 {
                    Val::C(self.argc(st, ci, &args, 2, 64)?)
                } else {
                    Val::C(u64::MAX)
                }
            }
            Errno => Val::C(4 << 32),
            Malloc => {
                let n = self.alloc(st, ci, &args, 0)?;
                Val::C(st.mem.alloc(n as usize))
            }
            Calloc => {
                let a = self.argc(st, ci, &args, 0, 64)?;
                let b = self.argc(st, ci, &args, 1, 64)?;
                let n = a.saturating_mul(b);
                if n > st.max_alloc {
                    return Err(Stop::Alloc("a single allocation larger than the limit".into()));
                }
                Val::C(st.mem.alloc(n as usize))
            }
            Realloc => {
                let n = self.alloc(st, ci, &args, 1)?;
                let a = self.argc(st, ci, &args, 0, 64)?;
                if a == 0 {
                    Val::C(st.mem.alloc(n as usize))
                } else {
                    st.mem.realloc(a, n as usize).map_err(Stop::Mem)?;
                    Val::C(a)
                }
            }
            Memalign => {
                let n = self.alloc(st, ci, &args, 2)?;
                let p = self.argc(st, ci, &args, 0, 64)?;
                let a = st.mem.alloc(n as usize);
                self.store_scalar(st, p, 64, &Val::C(a))?;
                Val::C(0)
            }
            Free => {
                let a = self.argc(st, ci, &args, 0, 64)?;
                if a != 0 {
                    st.mem.free(a).map_err(Stop::Mem)?;
                }
                Val::C(0)
            }
            Bcmp | Memcmp => {
                let n = self.argc(st, ci, &args, 2, 64)? as usize;
                let a = self.argc(st, ci, &args, 0, 64)?;
                let b = self.argc(st, ci, &args, 1, 64)?;
                let (sa, sb) = (
                    st.mem.read(a, n).map_err(Stop::Mem)?,
                    st.mem.read(b, n).map_err(Stop::Mem)?,
                );
                if sa.is_concrete() && sb.is_concrete() {
                    let r: i32 = match sa.d.cmp(&sb.d) {
                        std::cmp::Ordering::Less => -1,
                        std::cmp::Ordering::Equal => 0,
                        std::cmp::Ordering::Greater => 1,
                    };
                    return Ok(Val::C(r as u32 as u64));
                }
                if x == Bcmp {
                    let e = self.eq_sb(&sa, &sb);
                    let ne = self.p.not(e);
                    let r = self.p.zext(ne, 32);
                    self.mk(r, 32)
                } else {
                    let mut r = self.p.konst(32, 0);
                    let lt = self.p.konst(32, u32::MAX as u128);
                    let gt = self.p.konst(32, 1);
                    for i in (0..n).rev() {
                        let xa = if sa.sym(i) != 0 { sa.sym(i) } else { self.p.konst(8, sa.d[i] as u128) };
                        let xb = if sb.sym(i) != 0 { sb.sym(i) } else { self.p.konst(8, sb.d[i] as u128) };
                        let eq = self.p.bin(Op::Eq, xa, xb);
                        let l = self.p.bin(Op::Ult, xa, xb);
                        let d = self.p.ite(l, lt, gt);
                        r = self.p.ite(eq, r, d);
                    }
                    self.mk(r, 32)
                }
            }
            Strlen => {
                let a = self.argc(st, ci, &args, 0, 64)?;
                let mut n = 0;
                loop {
                    let b = st.mem.read(a + n, 1).map_err(Stop::Mem)?;
                    if !b.is_concrete() {
                        return unsup("strlen of symbolic data");
                    }
                    if b.d[0] == 0 {
                        break;
                    }
                    n += 1;
                }
                Val::C(n)
            }
            Memcpy | MemcpyFn => {
                let n = self.argc(st, ci, &args, 2, 64)?;
                if n == 0 {
                    return Ok(args[0].clone());
                }
                let d = self.argc(st, ci, &args, 0, 64)?;
                let s = self.argc(st, ci, &args, 1, 64)?;
                let b = st.mem.read(s, n as usize).map_err(Stop::Mem)?;
                st.mem.write(d, &b).map_err(Stop::Mem)?;
                Val::C(d)
            }
            Memset | MemsetFn => {
                let n = self.argc(st, ci, &args, 2, 64)? as usize;
                if n == 0 {
                    return Ok(args[0].clone());
                }
                let d = self.argc(st, ci, &args, 0, 64)?;
                let b = match &args[1] {
                    Val::C(c) => SB::concrete(vec![*c as u8; n]),
                    Val::X(e) => {
                        let e = if self.p.w(*e) > 8 { self.p.extract(*e, 0, 8) } else { *e };
                        SB { d: vec![0; n], s: Some(vec![e; n]) }
                    }
                    _ => return unsup("memset"),
                };
                st.mem.write(d, &b).map_err(Stop::Mem)?;
                Val::C(d)
            }
            Panic | Trap | Abort => {
                let loc = self.panic_loc(st, x, &args);
                return Err(Stop::Panic(loc));
            }
            OomPanic => return Err(Stop::Alloc("allocation failure".into())),
            GetRandom => {
                // getrandom(buf, len, flags) / syscall(SYS_getrandom, buf, len, flags)
                let name = &m.funcs[f as usize].name;
                let o = if name == "syscall" {
                    let nr = self.argc(st, ci, &args, 0, 64)?;
                    if nr == 186 {
                        return Ok(Val::C(1)); // gettid
                    }
                    if nr != 318 {
                        return Ok(Val::C(u64::MAX));
                    }
                    1
                } else {
                    0
                };
                let a = self.argc(st, ci, &args, o, 64)?;
                let n = self.argc(st, ci, &args, o + 1, 64)?;
                let s = st.hash_seed;
                let d = (0..n).map(|i| prims::random_byte(0x5eed_0000 + s * 64 + i)).collect();
                st.mem.write(a, &SB::concrete(d)).map_err(Stop::Mem)?;
                Val::C(n)
            }
            ClockGettime => {
                let p = self.argc(st, ci, &args, 1, 64)?;
                let now = st.now;
                self.store_scalar(st, p, 64, &Val::C(now))?;
                self.store_scalar(st, p + 8, 64, &Val::C(0))?;
                Val::C(0)
            }
            AddO(s) | SubO(s) | MulO(s) => {
                let (w, _) = self.lanes_of(ci.argtys[0]);
                if let (Val::C(a), Val::C(b)) = (&args[0], &args[1]) {
                    let (a, b) = (*a as u128, *b as u128);
                    let (sa, sb) = (sext128(a, w), sext128(b, w));
                    let (r, o) = if s {
                        let t = match x {
                            AddO(_) => sa + sb,
                            SubO(_) => sa - sb,
                            _ => sa * sb,
                        };
                        let r = t as u128 & mask(w);
                        (r, sext128(r, w) != t)
                    } else {
                        match x {
                            AddO(_) => ((a + b) & mask(w), a + b > mask(w)),
                            SubO(_) => (a.wrapping_sub(b) & mask(w), a < b),
                            _ => ((a * b) & mask(w), a * b > mask(w)),
                        }
                    };
                    return Ok(Val::A(Rc::new(vec![Val::C(r as u64), Val::C(o as u64)])));
                }
                let a = self.ex(&args[0], w)?;
                let b = self.ex(&args[1], w)?;
                let op = match x {
                    AddO(_) => Op::Add,
                    SubO(_) => Op::Sub,
                    _ => Op::Mul,
                };
                let r = self.p.bin(op, a, b);
                let o = if !s && x == SubO(false) {
                    self.p.bin(Op::Ult, a, b)
                } else if !s && x == AddO(false) {
                    self.p.bin(Op::Ult, r, a)
                } else if s && !matches!(x, MulO(_)) && w <= 126 || matches!(x, MulO(_)) && w <= 64 {
                    let ww = if matches!(x, MulO(_)) { w * 2 } else { w + 2 };
                    let (ea, eb) = if s {
                        (self.p.sext(a, ww), self.p.sext(b, ww))
                    } else {
                        (self.p.zext(a, ww), self.p.zext(b, ww))
                    };
                    let t = self.p.bin(op, ea, eb);
                    let er = if s { self.p.sext(r, ww) } else { self.p.zext(r, ww) };
                    let eq = self.p.bin(Op::Eq, t, er);
                    self.p.not(eq)
                } else {
                    match (self.p.is_const(a), self.p.is_const(b)) {
                        (Some(a), Some(b)) => {
                            let o = match x {
                                MulO(false) => a.overflowing_mul(b).1,
                                MulO(true) => (a as i128).overflowing_mul(b as i128).1,
                                AddO(true) => (a as i128).overflowing_add(b as i128).1,
                                _ => (a as i128).overflowing_sub(b as i128).1,
                            };
                            self.p.konst(1, o as u128)
                        }
                        _ => return unsup("wide overflow arithmetic"),
                    }
                };
                let (rv, ov) = (self.mk(r, w), self.mk(o, 1));
                Val::A(Rc::new(vec![rv, ov]))
            }
            AddSat(s) | SubSat(s) => {
                let (w, n) = self.lanes_of(ci.argtys[0]);
                self.lanes2(n, &args[0].clone(), &args[1].clone(), &mut |me, a, b| {
                    let a = me.ex(a, w)?;
                    let b = me.ex(b, w)?;
                    if s {
                        return unsup("signed saturating arithmetic");
                    }
                    let r = if matches!(x, AddSat(_)) {
                        let r = me.p.bin(Op::Add, a, b);
                        let c = me.p.bin(Op::Ult, r, a);
                        let k = me.p.konst(w, mask(w));
                        me.p.ite(c, k, r)
                    } else {
                        let r = me.p.bin(Op::Sub, a, b);
                        let c = me.p.bin(Op::Ult, a, b);
                        let k = me.p.konst(w, 0);
                        me.p.ite(c, k, r)
                    };
                    Ok(me.mk(r, w))
                })?
            }
            Min(s) | Max(s) => {
                let (w, n) = self.lanes_of(ci.argtys[0]);
                let ismin = matches!(x, Min(_));
                self.lanes2(n, &args[0].clone(), &args[1].clone(), &mut |me, a, b| {
                    let c = me.icmp1(if s { P::Slt } else { P::Ult }, w, a, b)?;
                    match c {
                        Val::C(k) => Ok(if (k == 1) == ismin { a.clone() } else { b.clone() }),
                        Val::X(c) => {
                            let a = me.ex(a, w)?;
                            let b = me.ex(b, w)?;
                            let r = if ismin { me.p.ite(c, a, b) } else { me.p.ite(c, b, a) };
                            Ok(me.mk(r, w))
                        }
                        _ => unsup("min"),
                    }
                })?
            }
            Cmp3(s) => {
                let (w, n) = self.lanes_of(ci.argtys[0]);
                let (rw, _) = self.lanes_of(ci.ret);
                self.lanes2(n, &args[0].clone(), &args[1].clone(), &mut |me, a, b| {
                    let lt = me.icmp1(if s { P::Slt } else { P::Ult }, w, a, b)?;
                    let eq = me.icmp1(P::Eq, w, a, b)?;
                    let lt = me.ex(&lt, 1)?;
                    let eq = me.ex(&eq, 1)?;
                    let (mk, z, o) = (me.p.konst(rw, mask(rw)), me.p.konst(rw, 0), me.p.konst(rw, 1));
                    let t = me.p.ite(eq, z, o);
                    let r = me.p.ite(lt, mk, t);
                    Ok(me.mk(r, rw))
                })?
            }
            Abs => {
                let (w, _) = self.lanes_of(ci.argtys[0]);
                let a = self.ex(&args[0], w)?;
                let z = self.p.konst(w, 0);
                let c = self.p.bin(Op::Slt, a, z);
                let n = self.p.bin(Op::Sub, z, a);
                let r = self.p.ite(c, n, a);
                self.mk(r, w)
            }
            Fshl | Fshr => {
                let (w, n) = self.lanes_of(ci.argtys[0]);
                let get = |v: &Val, i: usize| match v {
                    Val::A(a) => a[i].clone(),
                    o => o.clone(),
                };
                let mut out = vec![];
                for i in 0..n.max(1) as usize {
                    let a = get(&args[0], i);
                    let b = get(&args[1], i);
                    let s = get(&args[2], i);
                    let sh = match s {
                        Val::C(c) => (c % w as u64) as u32,
                        Val::X(_) => return unsup("funnel shift by symbolic amount"),
                        _ => return unsup("fsh"),
                    };
                    let sh = if x == Fshl { sh } else { (w - sh) % w };
                    let r = if sh == 0 {
                        if x == Fshl {
                            a
                        } else {
                            b
                        }
                    } else {
                        match (&a, &b) {
                            (Val::C(p), Val::C(q)) => {
                                Val::C(((p << sh) | (q >> (w - sh))) & mask(w) as u64)
                            }
                            _ => {
                                let ea = self.ex(&a, w)?;
                                let eb = self.ex(&b, w)?;
                                let hi = self.p.extract(ea, 0, w - sh);
                                let lo = self.p.extract(eb, w - sh, sh);
                                let e = self.p.concat(hi, lo);
                                self.mk(e, w)
                            }
                        }
                    };
                    out.push(r);
                }
                if n == 0 {
                    out.pop().unwrap()
                } else {
                    Val::A(Rc::new(out))
                }
            }
            Cttz | Ctlz | Ctpop => {
                let (w, n) = self.lanes_of(ci.argtys[0]);
                if n != 0 {
                    return unsup("vector bit count");
                }
                match &args[0] {
                    Val::C(c) => Val::C(match x {
                        Cttz => {
                            if *c == 0 {
                                w as u64
                            } else {
                                c.trailing_zeros() as u64
                            }
                        }
                        Ctlz => (c.leading_zeros() - (64 - w)) as u64,
                        _ => c.count_ones() as u64,
                    }),
                    v => {
                        let e = self.ex(v, w)?;
                        let mut r = match x {
                            Ctpop => self.p.konst(w, 0),
                            _ => self.p.konst(w, w as u128),
                        };
                        for k in 0..w {
                            let i = if x == Ctlz { k } else { w - 1 - k };
                            let b = self.p.extract(e, i, 1);
                            if x == Ctpop {
                                let z = self.p.zext(b, w);
                                r = self.p.bin(Op::Add, r, z);
                            } else {
                                let v = if x == Cttz { i } else { w - 1 - i };
                                let kc = self.p.konst(w, v as u128);
                                r = self.p.ite(b, kc, r);
                            }
                        }
                        self.mk(r, w)
                    }
                }
            }
            Bswap => {
                let (w, n) = self.lanes_of(ci.argtys[0]);
                let nb = w / 8;
                let mut f1 = |me: &mut Exec, v: &Val| -> X<Val> {
                    match v {
                        Val::C(c) => Ok(Val::C(c.swap_bytes() >> (64 - w))),
                        v => {
                            let e = me.ex(v, w)?;
                            let mut r = 0;
                            for i in (0..nb).rev() {
                                let b = me.p.extract(e, i * 8, 8);
                                r = if r == 0 { b } else { me.p.concat(b, r) };
                            }
                            Ok(me.mk(r, w))
                        }
                    }
                };
                if n == 0 {
                    f1(self, &args[0])?
                } else {
                    match &args[0] {
                        Val::A(a) => {
                            let mut v = vec![];
                            for q in a.iter() {
                                v.push(f1(self, q)?);
                            }
                            Val::A(Rc::new(v))
                        }
                        _ => return unsup("bswap"),
                    }
                }
            }
            Bitrev => {
                let (w, _) = self.lanes_of(ci.argtys[0]);
                match &args[0] {
                    Val::C(c) => Val::C(c.reverse_bits() >> (64 - w)),
                    v => {
                        let e = self.ex(v, w)?;
                        let mut r = 0;
                        for i in (0..w).rev() {
                            let b = self.p.extract(e, i, 1);
                            r = if r == 0 { b } else { self.p.concat(b, r) };
                        }
                        self.mk(r, w)
                    }
                }
            }
            LoadRel => {
                let p = self.argc(st, ci, &args, 0, 64)?;
                let o = self.argc(st, ci, &args, 1, 64)?;
                let v = self.load_scalar(st, p.wrapping_add(o), 32)?;
                match v {
                    Val::C(c) => Val::C(p.wrapping_add(c as u32 as i32 as i64 as u64)),
                    _ => return unsup("relative load"),
                }
            }
            Ident => args[0].clone(),
            IsConst => Val::C(0),
            RedOr | RedAnd | RedAdd => {
                let (w, _) = self.lanes_of(ci.argtys[0]);
                match &args[0] {
                    Val::A(a) => {
                        let mut r = a[0].clone();
                        let b = match x {
                            RedOr => B::Or,
                            RedAnd => B::And,
                            _ => B::Add,
                        };
                        for v in a[1..].iter() {
                            r = self.bin1(b, w, &r, v)?;
                        }
                        r
                    }
                    _ => return unsup("reduce"),
                }
            }
            // ---- harness interface
            SBytes => {
                let p = self.argc(st, ci, &args, 0, 64)?;
                let n = self.argc(st, ci, &args, 1, 64)? as usize;
                let np = self.argc(st, ci, &args, 2, 64)?;
                let nl = self.argc(st, ci, &args, 3, 64)? as usize;
                let name = String::from_utf8_lossy(&st.mem.read(np, nl).map_err(Stop::Mem)?.d).replace(' ', "_");
                let base = st.nvars;
                let es = self.fresh(st, n as u32, 8, &[]);
                if n > 0 {
                    st.mem.write(p, &SB { d: vec![0; n], s: Some(es) }).map_err(Stop::Mem)?;
                }
                st.log.push(Log::Bytes(name, base, n as u32));
                Val::C(0)
            }
            SBelow => {
                // (value, limit): the value, known to be below the limit
                let k = self.argc(st, ci, &args, 1, 64)?;
                match &args[0] {
                    Val::X(e) => {
                        let e = *e;
                        let lim = self.p.konst(64, k as u128);
                        let c = self.p.bin(Op::Ult, e, lim);
                        if !self.constrain(st, c)? {
                            return Err(Stop::Pruned);
                        }
                        Val::X(self.p.bound(e, k as u128 - 1))
                    }
                    Val::C(v) if *v < k => Val::C(*v),
                    _ => return Err(Stop::Pruned),
                }
            }
            SChoose => {
                let n = self.argc(st, ci, &args, 0, 64)?;
                if n == 0 {
                    return Err(Stop::Pruned);
                }
                // each alternative is a path of its own
                let dst = {
                    let fr = st.frames.last().unwrap();
                    m.funcs[fr.f as usize].blocks[fr.blk as usize].insts[fr.pc as usize].dst
                };
                for k in (1..n).rev() {
                    let mut o = st.clone();
                    o.log.push(Log::Choose(n, k));
                    let fr = o.frames.last_mut().unwrap();
                    if dst != NONE {
                        fr.regs[dst as usize] = Val::C(k);
                    }
                    if ci.normal != NONE {
                        self.goto(&mut o, &m, ci.normal);
                    } else {
                        fr.pc += 1;
                    }
                    self.st.forks += 1;
                    self.work.push(o);
                }
                st.log.push(Log::Choose(n, 0));
                Val::C(0)
            }
            SAssume => {
                let (w, _) = self.lanes_of(ci.argtys[0]);
                match &args[0] {
                    Val::C(c) => {
                        if *c == 0 {
                            return Err(Stop::Pruned);
                        }
                    }
                    Val::X(e) => {
                        let z = self.p.konst(w, 0);
                        let q = self.p.bin(Op::Eq, *e, z);
                        let c = self.p.not(q);
                        if !self.constrain(st, c)? {
                            return Err(Stop::Pruned);
                        }
                    }
                    _ => return unsup("assume"),
                }
                Val::C(0)
            }
            SCheck => {
                let (w, _) = self.lanes_of(ci.argtys[0]);
                let np = self.argc(st, ci, &args, 1, 64)?;
                let nl = self.argc(st, ci, &args, 2, 64)? as usize;
                let name = String::from_utf8_lossy(&st.mem.read(np, nl).map_err(Stop::Mem)?.d).into_owned();
                self.st.checks += 1;
                self.check_names.entry((st.job, name.clone())).or_insert((0, 0)).0 += 1;
                match &args[0] {
                    Val::C(c) => {
                        if *c == 0 {
                            self.check_names.get_mut(&(st.job, name.clone())).unwrap().1 += 1;
                            self.violation(st, "check", &name, &[])?;
                            return Err(Stop::Pruned);
                        }
                    }
                    Val::X(e) => {
                        let z = self.p.konst(w, 0);
                        let bad = self.p.bin(Op::Eq, *e, z);
                        let good = self.p.not(bad);
                        if !st.pc.contains(&good) {
                            self.st.check_queries += 1;
                            if self.feasible(st, &[bad])?.is_some() {
                                self.check_names.get_mut(&(st.job, name.clone())).unwrap().1 += 1;
                                self.violation(st, "check", &name, &[bad])?;
                                if !self.constrain(st, good)? {
                                    return Err(Stop::Pruned);
                                }
                            }
                        }
                    }
                    _ => return unsup("check"),
                }
                Val::C(0)
            }
            SCover => {
                let k = self.argc(st, ci, &args, 0, 64)?;
                if !st.covers.contains(&k) {
                    st.covers.push(k);
                }
                Val::C(0)
            }
            SObserve => {
                let t = self.argc(st, ci, &args, 0, 64)?;
                let p = self.argc(st, ci, &args, 1, 64)?;
                let n = self.argc(st, ci, &args, 2, 64)? as usize;
                let b = st.mem.read(p, n).map_err(Stop::Mem)?;
                st.obs.push((t, Rc::new(b)));
                Val::C(0)
            }
            SLimit => {
                let k = self.argc(st, ci, &args, 0, 64)?;
                let v = self.argc(st, ci, &args, 1, 64)?;
                match k {
                    0 => st.max_alloc = v,
                    1 => st.panic_ok = v != 0,
                    2 => st.rnd_sym = v != 0,
                    3 => st.now = v,
                    4 => st.hash_seed = v,
                    // from here on a long run is as expected: the path is not followed further
                    5 => {
                        st.steps = 0;
                        st.long_ok = v;
                    }
                    _ => return unsup("limit"),
                }
                Val::C(0)
            }
            SRandom => {
                let p = self.argc(st, ci, &args, 0, 64)?;
                let n = self.argc(st, ci, &args, 1, 64)? as usize;
                if st.rnd_sym {
                    let base = st.nvars;
                    let es = self.fresh(st, n as u32, 8, &[]);
                    if n > 0 {
                        st.mem.write(p, &SB { d: vec![0; n], s: Some(es) }).map_err(Stop::Mem)?;
                    }
                    st.log.push(Log::Bytes("random".into(), base, n as u32));
                } else {
                    let r = st.rnd;
                    let d = (0..n as u64).map(|i| prims::random_byte(r + i)).collect();
                    st.mem.write(p, &SB::concrete(d)).map_err(Stop::Mem)?;
                }
                st.rnd += n as u64;
                Val::C(0)
            }
            SHash => {
                let alg = self.argc(st, ci, &args, 0, 64)?;
                let ip = self.argc(st, ci, &args, 1, 64)?;
                let il = self.argc(st, ci, &args, 2, 64)? as usize;
                let op = self.argc(st, ci, &args, 3, 64)?;
                let ol = self.argc(st, ci, &args, 4, 64)? as usize;
                let inp = st.mem.read(ip, il).map_err(Stop::Mem)?;
                let out = self.prim_hash(st, alg, inp, ol)?;
                st.mem.write(op, &out).map_err(Stop::Mem)?;
                Val::C(0)
            }
            SBlock => {
                let alg = self.argc(st, ci, &args, 0, 64)?;
                let dec = self.argc(st, ci, &args, 1, 64)? != 0;
                let kp = self.argc(st, ci, &args, 2, 64)?;
                let kl = self.argc(st, ci, &args, 3, 64)? as usize;
                let ip = self.argc(st, ci, &args, 4, 64)?;
                let op = self.argc(st, ci, &args, 5, 64)?;
                let key = st.mem.read(kp, kl).map_err(Stop::Mem)?;
                let inp = st.mem.read(ip, 16).map_err(Stop::Mem)?;
                let out = self.prim_block(st, alg, dec, key, inp)?;
                st.mem.write(op, &out).map_err(Stop::Mem)?;
                Val::C(0)
            }
            SKeystream => {
                let alg = self.argc(st, ci, &args, 0, 64)?;
                let kp = self.argc(st, ci, &args, 1, 64)?;
                let kl = self.argc(st, ci, &args, 2, 64)? as usize;
                let vp = self.argc(st, ci, &args, 3, 64)?;
                let vl = self.argc(st, ci, &args, 4, 64)? as usize;
                let pos = self.argc(st, ci, &args, 5, 64)?;
                let op = self.argc(st, ci, &args, 6, 64)?;
                let ol = self.argc(st, ci, &args, 7, 64)? as usize;
                let key = st.mem.read(kp, kl).map_err(Stop::Mem)?;
                let iv = st.mem.read(vp, vl).map_err(Stop::Mem)?;
                let out = self.prim_ks(st, alg, key, iv, pos, ol)?;
                st.mem.write(op, &out).map_err(Stop::Mem)?;
                Val::C(0)
            }
            SParam => {
                let k = self.argc(st, ci, &args, 0, 64)?;
                Val::C(self.o.params[st.job as usize].get(k as usize).copied().unwrap_or(0))
            }
            SPick => {
                let k = self.argc(st, ci, &args, 0, 64)?;
                Val::C(k)
            }
            SIsSym => {
                let p = self.argc(st, ci, &args, 0, 64)?;
                let n = self.argc(st, ci, &args, 1, 64)? as usize;
                let b = st.mem.read(p, n).map_err(Stop::Mem)?;
                Val::C(!b.is_concrete() as u64)
            }
            SNote => {
                let p = self.argc(st, ci, &args, 0, 64)?;
                let n = self.argc(st, ci, &args, 1, 64)? as usize;
                let b = st.mem.read(p, n).map_err(Stop::Mem)?;
                if self.o.trace {
                    let v = self.eval_sb(&st.model, &b);
                    eprintln!("note: {:?} sym={}", String::from_utf8_lossy(&v), !b.is_concrete());
                }
                Val::C(0)
            }
            Unknown => return unsup(format!("external {}", m.funcs[f as usize].name)),
        })
    }
    fn panic_loc(&self, st: &State, _x: Ext, args: &[Val]) -> String {
        // find a core::panic::Location among the arguments (last pointer)
        for a in args.iter().rev() {
            if let Val::C(p) = a {
                if let Ok(b) = st.mem.read(*p, 24) {
                    if b.is_concrete() {
                        let fp = u64::from_le_bytes(b.d[0..8].try_into().unwrap());
                        let fl = u64::from_le_bytes(b.d[8..16].try_into().unwrap());
                        let line = u32::from_le_bytes(b.d[16..20].try_into().unwrap());
                        if fl < 512 && fp >> 32 == OBJ_CONST {
                            if let Ok(s) = st.mem.read(fp, fl as usize) {
                                let mut s = String::from_utf8_lossy(&s.d).into_owned();
                                s = s.trim_end_matches('\0').to_string();
                                if s.contains(".rs") {
                                    return format!("{}:{}", s, line);
                                }
                            }
                        }
                    }
                }
            }
        }
        self.stack(st)
    }
}
