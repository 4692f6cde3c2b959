//! Hash-consed bit-vector expressions with on-the-fly simplification.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32; // 0 is "none"

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    SExt,
    /// The operand, known to be at most `k` on every path that has this node.
    Bound,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u128,
}

pub struct Pool {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E>,
    vars: Vec<Option<Rc<Vec<u64>>>>, // support bitsets
    /// The one node of at most 8 bits that a node is a function of (0: constant, NOROOT: none).
    roots: Vec<E>,
    /// bit 0: contains an ite, bit 1: contains a bound
    flags: Vec<u8>,
    tables: HashMap<E, Rc<Vec<u128>>>,
    building: bool,
}
const NOROOT: E = u32::MAX;
/// An integer that is congruent to an expression modulo 2^w: sum of non-negative terms with factors.
#[derive(Clone)]
struct Lin {
    t: Vec<(E, i128)>,
    k: i128,
    lo: i128,
    hi: i128,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

impl Pool {
    pub fn new() -> Pool {
        let n = Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 };
        Pool { nodes: vec![n], map: HashMap::new(), vars: vec![None], roots: vec![0], flags: vec![0], tables: HashMap::new(), building: false }
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let id = self.nodes.len() as E;
        self.nodes.push(n);
        self.vars.push(None);
        let kids: &[E] = match n.op {
            Op::Const | Op::Var => &[],
            Op::Extract | Op::SExt | Op::Bound => &[n.a],
            Op::Ite => &[n.a, n.b, n.c],
            _ => &[n.a, n.b],
        };
        let mut root = if n.op == Op::Var { NOROOT } else { 0 };
        let mut fl = (n.op == Op::Ite) as u8 | ((n.op == Op::Bound) as u8) << 1;
        for k in kids {
            let r = self.roots[*k as usize];
            fl |= self.flags[*k as usize];
            if r != 0 && r != root {
                root = if root == 0 { r } else { NOROOT };
            }
        }
        if root == NOROOT && n.w <= 8 {
            root = id;
        }
        self.roots.push(root);
        self.flags.push(fl);
        self.map.insert(n, id);
        id
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w
    }
    pub fn konst(&mut self, w: u32, k: u128) -> E {
        assert!(w <= 128 && w > 0, "const width {}", w);
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, idx: u32, w: u32) -> E {
        self.mk(Node { op: Op::Var, w, a: idx, b: 0, c: 0, k: 0 })
    }
    #[inline]
    pub fn is_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn raw(&mut self, op: Op, w: u32, a: E, b: E, c: E) -> E {
        self.mk(Node { op, w, a, b, c, k: 0 })
    }
    pub fn support(&mut self, e: E) -> Rc<Vec<u64>> {
        if let Some(s) = &self.vars[e as usize] {
            return s.clone();
        }
        // iterative post-order
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if self.vars[x as usize].is_some() {
                continue;
            }
            let n = self.n(x);
            let kids: Vec<E> = match n.op {
                Op::Const | Op::Var => vec![],
                Op::Extract | Op::SExt | Op::Bound => vec![n.a],
                Op::Ite => vec![n.a, n.b, n.c],
                _ => vec![n.a, n.b],
            };
            if done || kids.is_empty() {
                let mut s: Vec<u64> = vec![];
                if n.op == Op::Var {
                    let i = (n.a / 64) as usize;
                    s.resize(i + 1, 0);
                    s[i] |= 1 << (n.a % 64);
                }
                let mut rc: Option<Rc<Vec<u64>>> = None;
                for k in &kids {
                    let ks = self.vars[*k as usize].clone().unwrap();
                    match &rc {
                        None => rc = Some(ks),
                        Some(r) => {
                            if !subset(&ks, r) {
                                let mut u: Vec<u64> = (**r).clone();
                                if u.len() < ks.len() {
                                    u.resize(ks.len(), 0);
                                }
                                for (i, v) in ks.iter().enumerate() {
                                    u[i] |= v;
                                }
                                rc = Some(Rc::new(u));
                            }
                        }
                    }
                }
                self.vars[x as usize] = Some(rc.unwrap_or_else(|| Rc::new(s)));
            } else {
                stack.push((x, true));
                for k in kids {
                    if self.vars[k as usize].is_none() {
                        stack.push((k, false));
                    }
                }
            }
        }
        self.vars[e as usize].clone().unwrap()
    }

    // ---- constructors ----
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.konst(w, mask(w));
        self.bin(Op::Xor, a, m)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(k) = self.is_const(c) {
            return if k & 1 == 1 { a } else { b };
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, a);
                }
                _ => {}
            }
        }
        // negated condition: swap
        let cn = self.n(c);
        if cn.op == Op::Xor && self.is_const(cn.b) == Some(1) {
            return self.ite(cn.a, b, a);
        }
        let bn = self.n(b);
        if bn.op == Op::Ite && bn.a == c {
            return self.ite(c, a, bn.c);
        }
        let an = self.n(a);
        if an.op == Op::Ite && an.a == c {
            return self.ite(c, an.b, b);
        }
        let e = self.raw(Op::Ite, w, c, a, b);
        self.narrow(e)
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        let (hn, ln) = (self.n(hi), self.n(lo));
        if hn.op == Op::Const && ln.op == Op::Const && w <= 128 {
            return self.konst(w, (hn.k << wl) | ln.k);
        }
        // concat(extract(x,..), extract(x,..)) adjacent
        let (hx, hlo) = if hn.op == Op::Extract { (hn.a, hn.c) } else { (hi, 0) };
        let (lx, llo) = if ln.op == Op::Extract { (ln.a, ln.c) } else { (lo, 0) };
        if hx == lx && hn.op == Op::Extract && hlo == llo + wl {
            return self.extract(hx, llo, w);
        }
        // right-nest: concat(concat(a,b),c) -> concat(a, concat(b,c))
        if hn.op == Op::Concat {
            let inner = self.concat(hn.b, lo);
            return self.concat(hn.a, inner);
        }
        if ln.op == Op::Concat {
            // try to merge hi with ln.a
            let an = self.n(ln.a);
            let mergeable = (hn.op == Op::Const && an.op == Op::Const && hn.w + an.w <= 128)
                || (hn.op == Op::Extract && an.op == Op::Extract && hn.a == an.a && hn.c == an.c + an.w);
            if mergeable {
                let m = self.concat(hi, ln.a);
                return self.concat(m, ln.b);
            }
        }
        self.raw(Op::Concat, w, hi, lo, 0)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let mut rest = w - wa;
        let mut r = a;
        while rest > 0 {
            let s = rest.min(128);
            let z = self.konst(s, 0);
            r = self.concat(z, r);
            rest -= s;
        }
        r
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let n = self.n(a);
        if n.op == Op::Const {
            return self.konst(w, sext128(n.k, wa) as u128);
        }
        if n.op == Op::Concat {
            if let Some(k) = self.is_const(n.a) {
                let wh = self.w(n.a);
                if (k >> (wh - 1)) & 1 == 0 {
                    return self.zext(a, w);
                }
            }
        }
        self.raw(Op::SExt, w, a, 0, 0)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = self.n(a);
        if lo == 0 && w == n.w {
            return a;
        }
        debug_assert!(lo + w <= n.w);
        if self.flags[a as usize] & 2 != 0 && matches!(n.op, Op::Add | Op::Sub | Op::Mul | Op::Bound) && n.w <= 64 {
            let l = self.lin(a, 24);
            let (min, max) = self.lin_range(&l);
            if min >= 0 && max < 1i128 << n.w {
                let bits = (128 - (max as u128).leading_zeros()).max(1);
                if lo >= bits {
                    return self.konst(w, 0);
                }
                if lo + w > bits {
                    let x = self.extract(a, lo, bits - lo);
                    return self.zext(x, w);
                }
            }
            return self.raw(Op::Extract, w, a, 0, lo);
        }
        match n.op {
            Op::Const => return self.konst(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, n.c + lo, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, lo + w - wl);
                return self.concat(h, l);
            }
            Op::SExt => {
                let wa = self.w(n.a);
                if lo + w <= wa {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        let e = self.raw(Op::Extract, w, a, 0, lo);
        self.narrow(e)
    }
    /// The same condition, simplified when it depends on a few bits only.
    fn narrow(&mut self, e: E) -> E {
        if self.w(e) == 1 && self.flags[e as usize] & 1 != 0 && !self.building {
            self.building = true;
            let r = self.by_table(e);
            self.building = false;
            return r;
        }
        e
    }
    /// upper bound on the unsigned value, from structure
    pub fn umax(&self, e: E) -> u128 {
        let n = self.n(e);
        match n.op {
            Op::Const => n.k,
            Op::Concat => {
                let wl = self.w(n.b);
                if n.w > 128 {
                    return u128::MAX;
                }
                (self.umax(n.a) << wl) | self.umax(n.b)
            }
            Op::And => self.umax(n.a).min(self.umax(n.b)),
            Op::Ite => {
                // bounded recursion on ite chains
                self.umax_d(n.b, 8).max(self.umax_d(n.c, 8))
            }
            Op::Bound => n.k,
            Op::URem => match self.is_const(n.b) {
                Some(k) if k > 0 => k - 1,
                _ => mask(n.w),
            },
            _ => mask(n.w),
        }
    }
    fn umax_d(&self, e: E, d: u32) -> u128 {
        let n = self.n(e);
        if n.op == Op::Ite {
            if d == 0 {
                return mask(n.w);
            }
            return self.umax_d(n.b, d - 1).max(self.umax_d(n.c, d - 1));
        }
        self.umax(e)
    }
    pub fn tz(&self, e: E) -> u32 {
        let n = self.n(e);
        match n.op {
            Op::Const => {
                if n.k == 0 {
                    n.w
                } else {
                    n.k.trailing_zeros()
                }
            }
            Op::Concat => {
                let wl = self.w(n.b);
                let t = self.tz(n.b);
                if t >= wl {
                    wl + self.tz(n.a)
                } else {
                    t
                }
            }
            Op::Add | Op::Sub | Op::Or | Op::Xor => self.tz(n.a).min(self.tz(n.b)),
            Op::Mul => (self.tz(n.a) + self.tz(n.b)).min(n.w),
            Op::Ite => self.tz(n.b).min(self.tz(n.c)),
            _ => 0,
        }
    }
    fn fold(op: Op, w: u32, a: u128, b: u128) -> Option<u128> {
        let m = mask(w);
        Some(match op {
            Op::Add => a.wrapping_add(b) & m,
            Op::Sub => a.wrapping_sub(b) & m,
            Op::Mul => a.wrapping_mul(b) & m,
            Op::UDiv => {
                if b == 0 {
                    m
                } else {
                    a / b
                }
            }
            Op::URem => {
                if b == 0 {
                    a
                } else {
                    a % b
                }
            }
            Op::SDiv => {
                let (x, y) = (sext128(a, w), sext128(b, w));
                if y == 0 {
                    if x < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    (x.wrapping_div(y) as u128) & m
                }
            }
            Op::SRem => {
                let (x, y) = (sext128(a, w), sext128(b, w));
                if y == 0 {
                    a
                } else {
                    (x.wrapping_rem(y) as u128) & m
                }
            }
            Op::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    (a << b) & m
                }
            }
            Op::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            Op::AShr => {
                let s = b.min(w as u128 - 1) as u32;
                ((sext128(a, w) >> s) as u128) & m
            }
            Op::And => a & b,
            Op::Or => a | b,
            Op::Xor => a ^ b,
            Op::Eq => (a == b) as u128,
            Op::Ult => (a < b) as u128,
            Op::Ule => (a <= b) as u128,
            Op::Slt => (sext128(a, w) < sext128(b, w)) as u128,
            Op::Sle => (sext128(a, w) <= sext128(b, w)) as u128,
            _ => return None,
        })
    }
    /// `a` as (hi, lo) split at bit s, when that is free
    fn split(&mut self, e: E, s: u32) -> Option<(E, E)> {
        let n = self.n(e);
        match n.op {
            Op::Const => {
                let l = self.konst(s, n.k);
                let h = self.konst(n.w - s, n.k >> s);
                Some((h, l))
            }
            Op::Concat => {
                let wl = self.w(n.b);
                if wl == s {
                    Some((n.a, n.b))
                } else if s > wl {
                    let (h, l) = self.split(n.a, s - wl)?;
                    let l2 = self.concat(l, n.b);
                    Some((h, l2))
                } else {
                    let (h, l) = self.split(n.b, s)?;
                    let h2 = self.concat(n.a, h);
                    Some((h2, l))
                }
            }
            _ => None,
        }
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (an, bn) = (self.n(a), self.n(b));
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        if an.op == Op::Const && bn.op == Op::Const {
            if let Some(k) = Self::fold(op, w, an.k, bn.k) {
                return self.konst(rw, k);
            }
        }
        if (self.flags[a as usize] | self.flags[b as usize]) & 2 != 0 {
            if let Some(e) = self.by_range(op, a, b, w) {
                return e;
            }
        }
        // commutative: constant (or larger id) to the right
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        if comm && an.op == Op::Const {
            return self.bin(op, b, a);
        }
        if comm && bn.op != Op::Const && a > b {
            return self.bin(op, b, a);
        }
        // push into ite with constant leaves
        if bn.op == Op::Const && an.op == Op::Ite {
            let (t, f) = (self.n(an.b), self.n(an.c));
            if t.op == Op::Const && f.op == Op::Const
                || (t.op == Op::Const || f.op == Op::Const) && (rw == 1)
            {
                let x = self.bin(op, an.b, b);
                let y = self.bin(op, an.c, b);
                return self.ite(an.a, x, y);
            }
        }
        if an.op == Op::Const && bn.op == Op::Ite {
            let (t, f) = (self.n(bn.b), self.n(bn.c));
            if t.op == Op::Const && f.op == Op::Const {
                let x = self.bin(op, a, bn.b);
                let y = self.bin(op, a, bn.c);
                return self.ite(bn.a, x, y);
            }
        }
        let m = mask(w);
        let bk = if bn.op == Op::Const { Some(bn.k) } else { None };
        match op {
            Op::Add => {
                if bk == Some(0) {
                    return a;
                }
                if let Some(k) = bk {
                    if an.op == Op::Add {
                        if let Some(k2) = self.is_const(an.b) {
                            let s = self.konst(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, an.a, s);
                        }
                    }
                    // no-carry add of aligned constant: concat(x,0..) + k (k < 2^tz)
                    let t = self.tz(a);
                    if t > 0 && t < w && k <= mask(t) {
                        return self.bin(Op::Or, a, b);
                    }
                } else {
                    // disjoint bits
                    let (t, mb) = (self.tz(a), self.umax(b));
                    if t > 0 && t < 128 && mb <= mask(t) {
                        return self.bin(Op::Or, a, b);
                    }
                    let (t, ma) = (self.tz(b), self.umax(a));
                    if t > 0 && t < 128 && ma <= mask(t) {
                        return self.bin(Op::Or, a, b);
                    }
                    if an.op == Op::Add && self.is_const(an.b).is_some() {
                        let s = self.bin(Op::Add, an.a, b);
                        return self.bin(Op::Add, s, an.b);
                    }
                    if bn.op == Op::Add && self.is_const(bn.b).is_some() {
                        let s = self.bin(Op::Add, a, bn.a);
                        return self.bin(Op::Add, s, bn.b);
                    }
                    if bn.op == Op::Sub && bn.b == a {
                        return bn.a;
                    }
                    if an.op == Op::Sub && an.b == b {
                        return an.a;
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(k) = bk {
                    let nk = self.konst(w, k.wrapping_neg());
                    return self.bin(Op::Add, a, nk);
                }
                // (x + k) - x, (x+k) - (x+j)
                let (ax, ak) = self.addk(a);
                let (bx, bk2) = self.addk(b);
                if ax == bx {
                    return self.konst(w, ak.wrapping_sub(bk2));
                }
                if an.op == Op::Add {
                    if an.a == b {
                        return an.b;
                    }
                    if an.b == b {
                        return an.a;
                    }
                }
            }
            Op::Mul => {
                if let Some(k) = bk {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.konst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::UDiv => {
                if let Some(k) = bk {
                    if k.is_power_of_two() {
                        let s = self.konst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, s);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = bk {
                    if k.is_power_of_two() {
                        let s = self.konst(w, k - 1);
                        return self.bin(Op::And, a, s);
                    }
                }
            }
            Op::Shl => {
                if let Some(k) = bk {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let k = k as u32;
                    let lo = self.konst(k, 0);
                    let hi = self.extract(a, 0, w - k);
                    return self.concat(hi, lo);
                }
            }
            Op::LShr => {
                if let Some(k) = bk {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let k = k as u32;
                    let hi = self.extract(a, k, w - k);
                    return self.zext(hi, w);
                }
            }
            Op::AShr => {
                if let Some(k) = bk {
                    if k == 0 {
                        return a;
                    }
                    let k = k.min(w as u128 - 1) as u32;
                    let hi = self.extract(a, k, w - k);
                    return self.sext(hi, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if a == b {
                    return if op == Op::Xor { self.konst(w, 0) } else { a };
                }
                if let Some(k) = bk {
                    match op {
                        Op::And => {
                            if k == 0 {
                                return b;
                            }
                            if k == m {
                                return a;
                            }
                        }
                        Op::Or => {
                            if k == 0 {
                                return a;
                            }
                            if k == m {
                                return b;
                            }
                        }
                        _ => {
                            if k == 0 {
                                return a;
                            }
                        }
                    }
                    // and with a low/high mask -> extract/zext
                    if op == Op::And {
                        let tzk = k.trailing_zeros();
                        let top = 128 - k.leading_zeros();
                        if (k >> tzk).wrapping_add(1).is_power_of_two() || k >> tzk == u128::MAX {
                            let mid = self.extract(a, tzk, top - tzk);
                            let z = if tzk > 0 {
                                let lo = self.konst(tzk, 0);
                                self.concat(mid, lo)
                            } else {
                                mid
                            };
                            return self.zext(z, w);
                        }
                    }
                    if an.op == op {
                        if let Some(k2) = self.is_const(an.b) {
                            let nk = Self::fold(op, w, k, k2).unwrap();
                            let nk = self.konst(w, nk);
                            return self.bin(op, an.a, nk);
                        }
                    }
                    // not(cmp)
                    if op == Op::Xor && w == 1 {
                        match an.op {
                            Op::Ult => return self.bin(Op::Ule, an.b, an.a),
                            Op::Ule => return self.bin(Op::Ult, an.b, an.a),
                            Op::Slt => return self.bin(Op::Sle, an.b, an.a),
                            Op::Sle => return self.bin(Op::Slt, an.b, an.a),
                            _ => {}
                        }
                    }
                }
                if op == Op::Xor {
                    // cancel through one xor level
                    if an.op == Op::Xor {
                        if an.a == b {
                            return an.b;
                        }
                        if an.b == b {
                            return an.a;
                        }
                        if bk.is_none() && self.is_const(an.b).is_some() {
                            let s = self.bin(Op::Xor, an.a, b);
                            return self.bin(Op::Xor, s, an.b);
                        }
                    }
                    if bn.op == Op::Xor {
                        if bn.a == a {
                            return bn.b;
                        }
                        if bn.b == a {
                            return bn.a;
                        }
                        if self.is_const(bn.b).is_some() {
                            let s = self.bin(Op::Xor, a, bn.a);
                            return self.bin(Op::Xor, s, bn.b);
                        }
                    }
                } else {
                    // absorption
                    if an.op == op && (an.a == b || an.b == b) {
                        return a;
                    }
                    if bn.op == op && (bn.a == a || bn.b == a) {
                        return b;
                    }
                    if w == 1 {
                        // x & !x, x | !x
                        let nb = self.not(b);
                        if nb == a {
                            return self.konst(1, if op == Op::And { 0 } else { 1 });
                        }
                    }
                }
                // split at concat boundary
                if an.op == Op::Concat || bn.op == Op::Concat {
                    let s = if an.op == Op::Concat { self.w(an.b) } else { self.w(bn.b) };
                    if let (Some((ah, al)), Some((bh, bl))) = (self.split(a, s), self.split(b, s)) {
                        let h = self.bin(op, ah, bh);
                        let l = self.bin(op, al, bl);
                        return self.concat(h, l);
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if w == 1 {
                    if let Some(k) = bk {
                        return if k == 1 { a } else { self.not(a) };
                    }
                }
                if an.op == Op::Concat || bn.op == Op::Concat {
                    let s = if an.op == Op::Concat { self.w(an.b) } else { self.w(bn.b) };
                    if let (Some((ah, al)), Some((bh, bl))) = (self.split(a, s), self.split(b, s)) {
                        let h = self.bin(Op::Eq, ah, bh);
                        if self.is_const(h) == Some(0) {
                            return h;
                        }
                        let l = self.bin(Op::Eq, al, bl);
                        return self.bin(Op::And, h, l);
                    }
                }
                if let Some(k) = bk {
                    if an.op == Op::Xor {
                        if let Some(k2) = self.is_const(an.b) {
                            let nk = self.konst(w, k ^ k2);
                            return self.bin(Op::Eq, an.a, nk);
                        }
                        if k == 0 {
                            return self.bin(Op::Eq, an.a, an.b);
                        }
                    }
                    if an.op == Op::Add {
                        if let Some(k2) = self.is_const(an.b) {
                            let nk = self.konst(w, k.wrapping_sub(k2));
                            return self.bin(Op::Eq, an.a, nk);
                        }
                    }
                    if an.op == Op::Sub && k == 0 {
                        return self.bin(Op::Eq, an.a, an.b);
                    }
                    if an.op == Op::SExt {
                        let wa = self.w(an.a);
                        let low = k & mask(wa);
                        return if sext128(low, wa) as u128 & m == k {
                            let lk = self.konst(wa, low);
                            self.bin(Op::Eq, an.a, lk)
                        } else {
                            self.konst(1, 0)
                        };
                    }
                    if an.op == Op::Or && k == 0 {
                        let z = self.konst(w, 0);
                        let x = self.bin(Op::Eq, an.a, z);
                        let y = self.bin(Op::Eq, an.b, z);
                        return self.bin(Op::And, x, y);
                    }
                    if k > self.umax(a) {
                        return self.konst(1, 0);
                    }
                } else if an.op == Op::Xor && bn.op == Op::Xor {
                    if let (Some(k1), Some(k2)) = (self.is_const(an.b), self.is_const(bn.b)) {
                        if k1 == k2 {
                            return self.bin(Op::Eq, an.a, bn.a);
                        }
                    }
                }
            }
            Op::Ult | Op::Ule => {
                if a == b {
                    return self.konst(1, (op == Op::Ule) as u128);
                }
                let strict = op == Op::Ult;
                if let Some(k) = bk {
                    let ua = self.umax(a);
                    if strict {
                        if k == 0 {
                            return self.konst(1, 0);
                        }
                        if ua < k {
                            return self.konst(1, 1);
                        }
                        if k == 1 {
                            let z = self.konst(w, 0);
                            return self.bin(Op::Eq, a, z);
                        }
                        // canonical: x < k
                    } else {
                        if ua <= k {
                            return self.konst(1, 1);
                        }
                        let nk = self.konst(w, k + 1);
                        return self.bin(Op::Ult, a, nk);
                    }
                }
                if an.op == Op::Const {
                    let ub = self.umax(b);
                    if strict {
                        if an.k >= ub {
                            return self.konst(1, 0);
                        }
                        // k < b  == !(b < k+1)
                        if an.k == m {
                            return self.konst(1, 0);
                        }
                        let nk = self.konst(w, an.k + 1);
                        let t = self.bin(Op::Ult, b, nk);
                        if self.is_const(t).is_some() {
                            return self.not(t);
                        }
                    } else {
                        if an.k > ub {
                            return self.konst(1, 0);
                        }
                        if an.k == 0 {
                            return self.konst(1, 1);
                        }
                    }
                }
                // strip common zero high part
                let hz = |p: &Pool, n: &Node| -> u32 {
                    if n.op == Op::Concat && p.is_const(n.a) == Some(0) {
                        p.w(n.a)
                    } else if n.op == Op::Const {
                        w - (128 - n.k.leading_zeros()).min(w)
                    } else {
                        0
                    }
                };
                let z = hz(self, &an).min(hz(self, &bn));
                if z > 0 && z < w {
                    let x = self.extract(a, 0, w - z);
                    let y = self.extract(b, 0, w - z);
                    return self.bin(op, x, y);
                }
                if w == 1 {
                    // a<b == !a & b ; a<=b == !a | b
                    let na = self.not(a);
                    return self.bin(if strict { Op::And } else { Op::Or }, na, b);
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.konst(1, (op == Op::Sle) as u128);
                }
                let half = 1u128 << (w - 1);
                let (ua, ub) = (self.umax(a), self.umax(b));
                if ua < half && ub < half {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                // sign tests
                if op == Op::Slt && bk == Some(0) {
                    return self.extract(a, w - 1, 1);
                }
                if op == Op::Sle && an.op == Op::Const && an.k == 0 {
                    let t = self.extract(b, w - 1, 1);
                    return self.not(t);
                }
                if op == Op::Slt && an.op == Op::Const && an.k == m {
                    let t = self.extract(b, w - 1, 1);
                    return self.not(t);
                }
                if op == Op::Sle && bk == Some(m) {
                    return self.extract(a, w - 1, 1);
                }
            }
            _ => {}
        }
        let e = self.raw(op, rw, a, b, 0);
        self.narrow(e)
    }
    pub fn bound(&mut self, a: E, k: u128) -> E {
        if self.is_const(a).is_some() {
            return a;
        }
        let w = self.w(a);
        self.mk(Node { op: Op::Bound, w, a, b: 0, c: 0, k })
    }
    // ---- functions of a few bits ----
    /// The narrow node `e` is a function of.
    pub fn root(&self, e: E) -> Option<E> {
        match self.roots[e as usize] {
            0 | NOROOT => None,
            r => Some(r),
        }
    }
    /// Values of `e` for every value of its root.
    pub fn table(&mut self, e: E) -> Option<Rc<Vec<u128>>> {
        let r = self.root(e)?;
        let n = 1usize << self.w(r);
        let mut stack = vec![e];
        let mut steps = 0;
        while let Some(&x) = stack.last() {
            if self.tables.contains_key(&x) {
                stack.pop();
                continue;
            }
            steps += 1;
            if steps > 2000 {
                return None;
            }
            let xn = self.n(x);
            if xn.w > 128 {
                return None;
            }
            let t: Vec<u128> = if x == r {
                (0..n as u128).collect()
            } else if xn.op == Op::Const {
                vec![xn.k; n]
            } else {
                let kids: &[E] = match xn.op {
                    Op::Var => return None,
                    Op::Extract | Op::SExt | Op::Bound => &[xn.a],
                    Op::Ite => &[xn.a, xn.b, xn.c],
                    _ => &[xn.a, xn.b],
                };
                let mut miss = false;
                for k in kids {
                    if *k != r && self.is_const(*k).is_none() && self.roots[*k as usize] != r {
                        return None;
                    }
                    if self.is_const(*k).is_none() && !self.tables.contains_key(k) {
                        stack.push(*k);
                        miss = true;
                    }
                }
                if miss {
                    continue;
                }
                let get = |p: &Pool, k: E, i: usize| -> u128 {
                    match p.is_const(k) {
                        Some(v) => v,
                        None => p.tables[&k][i],
                    }
                };
                let mut v = Vec::with_capacity(n);
                for i in 0..n {
                    let a = get(self, xn.a, i);
                    v.push(match xn.op {
                        Op::Extract => (a >> xn.c) & mask(xn.w),
                        Op::SExt => sext128(a, self.w(xn.a)) as u128 & mask(xn.w),
                        Op::Bound => a,
                        Op::Ite => get(self, if a & 1 == 1 { xn.b } else { xn.c }, i),
                        Op::Concat => {
                            let wl = self.w(xn.b);
                            (if wl >= 128 { 0 } else { a << wl } | get(self, xn.b, i)) & mask(xn.w)
                        }
                        o => Self::fold(o, self.w(xn.a), a, get(self, xn.b, i))?,
                    });
                }
                v
            };
            // the root's own table depends on which root is meant only through its width
            self.tables.insert(x, Rc::new(t));
        }
        let t = self.tables.get(&e).cloned();
        if self.tables.len() > 20000 {
            self.tables.clear();
        }
        t.filter(|t| t.len() == n)
    }
    /// Leaves out the low and high bits of the root that make no difference.
    pub fn reduce(&mut self, r: E, t: &[u128]) -> (E, Vec<u128>) {
        let w = self.w(r);
        let indep = |b: u32| (0..t.len()).all(|i| t[i] == t[i ^ (1 << b)]);
        let (mut lo, mut hi) = (0, w);
        while lo + 1 < hi && indep(lo) {
            lo += 1;
        }
        while hi > lo + 1 && indep(hi - 1) {
            hi -= 1;
        }
        if lo == 0 && hi == w {
            return (r, t.to_vec());
        }
        let x = self.extract(r, lo, hi - lo);
        (x, (0..1usize << (hi - lo)).map(|i| t[i << lo]).collect())
    }
    /// A condition on a narrow value as comparisons of that value.
    fn by_table(&mut self, e: E) -> E {
        let r = match self.root(e) {
            Some(r) if r != e => r,
            _ => return e,
        };
        // already a comparison of the value itself
        let n = self.n(e);
        if !matches!(n.op, Op::Ite | Op::Extract) && ((n.a == r && self.is_const(n.b).is_some()) || (n.b == r && self.is_const(n.a).is_some())) {
            return e;
        }
        let t = match self.table(e) {
            Some(t) => t,
            None => return e,
        };
        if t.iter().all(|x| *x == t[0]) {
            return self.konst(1, t[0]);
        }
        let (r, t) = self.reduce(r, &t);
        if e == r {
            return e;
        }
        let rw = self.w(r);
        let ones = t.iter().filter(|x| **x == 1).count();
        if ones == 1 || ones == t.len() - 1 {
            let v = (ones == 1) as u128;
            let i = t.iter().position(|x| *x == v).unwrap();
            let k = self.konst(rw, i as u128);
            let q = self.bin(Op::Eq, r, k);
            return if ones == 1 { q } else { self.not(q) };
        }
        let mut cuts = vec![];
        for i in 1..t.len() {
            if t[i] != t[i - 1] {
                cuts.push(i);
            }
        }
        if cuts.len() > 6 {
            return e;
        }
        let mut x = self.konst(1, t[0]);
        if cuts.is_empty() {
            return x;
        }
        for c in cuts {
            // below c: x, from c on: t[c]
            let k = self.konst(rw, c as u128);
            let v = self.konst(1, t[c]);
            let lt = self.bin(Op::Ult, r, k);
            x = self.ite(lt, x, v);
        }
        x
    }
    // ---- ranges ----
    fn lin(&self, e: E, d: u32) -> Lin {
        let n = self.n(e);
        let opaque = |p: &Pool| {
            let m = p.umax(e);
            Lin { t: vec![(e, 1)], k: 0, lo: 0, hi: if m > 1 << 100 { i128::MAX >> 2 } else { m as i128 } }
        };
        if n.w > 96 || d == 0 {
            return opaque(self);
        }
        match n.op {
            Op::Const => {
                let k = sext128(n.k, n.w);
                Lin { t: vec![], k, lo: k, hi: k }
            }
            Op::Add | Op::Sub => {
                let (x, y) = (self.lin(n.a, d - 1), self.lin(n.b, d - 1));
                Self::lin_add(&x, &y, if n.op == Op::Add { 1 } else { -1 })
            }
            Op::Or => {
                let (ta, tb) = (self.tz(n.a), self.tz(n.b));
                if (ta < 128 && self.umax(n.b) <= mask(ta) && ta > 0) || (tb < 128 && self.umax(n.a) <= mask(tb) && tb > 0) {
                    let (x, y) = (self.lin(n.a, d - 1), self.lin(n.b, d - 1));
                    return Self::lin_add(&x, &y, 1);
                }
                opaque(self)
            }
            Op::Mul => match self.is_const(n.b) {
                Some(k) => {
                    let k = sext128(k, n.w);
                    if k.unsigned_abs() > 1 << 48 {
                        return opaque(self);
                    }
                    Self::lin_mul(&self.lin(n.a, d - 1), k)
                }
                None => opaque(self),
            },
            Op::Concat => {
                let wl = self.w(n.b);
                if self.is_const(n.a) == Some(0) {
                    let x = self.lin(n.b, d - 1);
                    if x.lo >= 0 && x.hi < 1i128 << wl.min(100) {
                        return x;
                    }
                } else if wl < 48 {
                    // high part times a power of two
                    let y = self.lin(n.b, d - 1);
                    if y.lo >= 0 && y.hi < 1i128 << wl {
                        let x = self.lin(n.a, d - 1);
                        if x.hi < 1 << 60 && x.lo > -(1 << 60) {
                            return Self::lin_add(&Self::lin_mul(&x, 1 << wl), &y, 1);
                        }
                    }
                }
                opaque(self)
            }
            Op::SExt => {
                let x = self.lin(n.a, d - 1);
                let h = 1i128 << (self.w(n.a) - 1).min(100);
                if x.lo >= -h && x.hi < h {
                    return x;
                }
                opaque(self)
            }
            Op::Extract if n.c == 0 => {
                let x = self.lin(n.a, d - 1);
                if x.t.iter().all(|t| self.flags[t.0 as usize] & 2 != 0) {
                    let (lo, hi) = self.lin_range(&x);
                    let h = 1i128 << n.w;
                    if lo >= -(h >> 1) && hi < h >> 1 || lo >= 0 && hi < h {
                        return x;
                    }
                }
                opaque(self)
            }
            _ => opaque(self),
        }
    }
    fn lin_add(x: &Lin, y: &Lin, s: i128) -> Lin {
        let mut t = x.t.clone();
        for (e, c) in &y.t {
            match t.iter_mut().find(|q| q.0 == *e) {
                Some(q) => q.1 += c * s,
                None => t.push((*e, c * s)),
            }
        }
        t.retain(|q| q.1 != 0);
        let (lo, hi) = if s > 0 { (y.lo, y.hi) } else { (-y.hi, -y.lo) };
        Lin { t, k: x.k + y.k * s, lo: (x.lo + lo).max(i128::MIN >> 2), hi: (x.hi + hi).min(i128::MAX >> 2) }
    }
    fn lin_mul(x: &Lin, k: i128) -> Lin {
        let m = |v: i128| v.checked_mul(k).unwrap_or(if (v > 0) == (k > 0) { i128::MAX } else { i128::MIN }).clamp(i128::MIN >> 2, i128::MAX >> 2);
        let (a, b) = (m(x.lo), m(x.hi));
        Lin { t: x.t.iter().map(|q| (q.0, q.1 * k)).collect(), k: x.k * k, lo: a.min(b), hi: a.max(b) }
    }
    /// Tighter range from the terms.
    fn lin_range(&self, l: &Lin) -> (i128, i128) {
        let (mut lo, mut hi) = (l.k, l.k);
        for (e, c) in &l.t {
            let m = self.umax(*e);
            if m > 1 << 70 || c.unsigned_abs() > 1 << 50 {
                return (i128::MIN >> 2, i128::MAX >> 2);
            }
            if *c > 0 {
                hi += c * m as i128;
            } else {
                lo += c * m as i128;
            }
        }
        (lo, hi)
    }
    fn lin_expr(&mut self, l: &Lin, w: u32) -> E {
        let mut e = 0;
        let mut terms = l.t.clone();
        terms.sort();
        for (t, c) in &terms {
            let tw = self.w(*t);
            let x = if tw > w {
                self.extract(*t, 0, w)
            } else {
                self.zext(*t, w)
            };
            let k = self.konst(w, *c as u128);
            let p = self.bin(Op::Mul, x, k);
            e = if e == 0 { p } else { self.bin(Op::Add, e, p) };
        }
        let k = self.konst(w, l.k as u128);
        if e == 0 {
            k
        } else {
            self.bin(Op::Add, e, k)
        }
    }
    /// Division and comparison of sums whose ranges are known.
    fn by_range(&mut self, op: Op, a: E, b: E, w: u32) -> Option<E> {
        if matches!(op, Op::Add | Op::Sub | Op::Mul) && !self.building && w <= 64 {
            // sums in one order
            let l = match op {
                Op::Mul => {
                    let k = sext128(self.is_const(b).or(self.is_const(a))?, w);
                    if k.unsigned_abs() > 1 << 48 {
                        return None;
                    }
                    Self::lin_mul(&self.lin(if self.is_const(b).is_some() { a } else { b }, 24), k)
                }
                _ => Self::lin_add(&self.lin(a, 24), &self.lin(b, 24), if op == Op::Add { 1 } else { -1 }),
            };
            if l.t.len() > 6 || l.t.iter().any(|t| t.1.unsigned_abs() > 1 << 60) {
                return None;
            }
            self.building = true;
            let e = self.lin_expr(&l, w);
            self.building = false;
            return Some(e);
        }
        match op {
            Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {}
            _ => return None,
        }
        if w > 96 {
            return None;
        }
        let fits = |lo: i128, hi: i128, signed: bool| {
            if signed {
                lo >= -(1i128 << (w - 1)) && hi < 1i128 << (w - 1)
            } else {
                lo >= 0 && hi < 1i128 << w
            }
        };
        let x = self.lin(a, 24);
        let (lo, hi) = self.lin_range(&x);
        match op {
            Op::UDiv | Op::URem | Op::SDiv | Op::SRem => {
                let k = self.is_const(b)?;
                let k = if matches!(op, Op::SDiv | Op::SRem) { sext128(k, w) } else { k as i128 };
                if k <= 0 || lo < 0 || !fits(lo, hi, matches!(op, Op::SDiv | Op::SRem)) {
                    return None;
                }
                let mut d = Lin { t: vec![], k: x.k.div_euclid(k) * k, lo: 0, hi: 0 };
                let mut r = Lin { t: vec![], k: x.k.rem_euclid(k), lo: 0, hi: 0 };
                for t in &x.t {
                    if t.1 % k == 0 {
                        d.t.push(*t);
                    } else {
                        r.t.push(*t);
                    }
                }
                let (rl, rh) = self.lin_range(&r);
                let (q0, q1) = (rl.div_euclid(k), rh.div_euclid(k));
                if q1 - q0 > 3 || rl < -(1 << 60) || rh > 1 << 60 {
                    return None;
                }
                let div = matches!(op, Op::UDiv | Op::SDiv);
                let mut res = 0;
                for q in (q0..=q1).rev() {
                    let v = if div {
                        let l = Lin { t: d.t.iter().map(|t| (t.0, t.1 / k)).collect(), k: d.k / k + q, lo: 0, hi: 0 };
                        self.lin_expr(&l, w)
                    } else {
                        let l = Lin { t: r.t.clone(), k: r.k - q * k, lo: 0, hi: 0 };
                        self.lin_expr(&l, w)
                    };
                    if res == 0 {
                        res = v;
                    } else {
                        // r < (q + 1) k, shifted so that both sides are not negative
                        let l = Lin { t: r.t.clone(), k: r.k - rl.min(0), lo: 0, hi: 0 };
                        if rh - rl.min(0) >= 1i128 << w {
                            return None;
                        }
                        let re = self.lin_expr(&l, w);
                        let lim = self.konst(w, ((q + 1) * k - rl.min(0)) as u128);
                        let c = self.bin(Op::Ult, re, lim);
                        res = self.ite(c, v, res);
                    }
                }
                Some(res)
            }
            _ => {
                let y = self.lin(b, 24);
                let (ylo, yhi) = self.lin_range(&y);
                let ok = match op {
                    Op::Eq => fits(lo, hi, true) && fits(ylo, yhi, true) || fits(lo, hi, false) && fits(ylo, yhi, false),
                    Op::Ult | Op::Ule => fits(lo, hi, false) && fits(ylo, yhi, false),
                    _ => fits(lo, hi, true) && fits(ylo, yhi, true),
                };
                if !ok {
                    // a constant may be written as a negative number
                    if matches!(op, Op::Ult | Op::Ule) && y.t.is_empty() && fits(lo, hi, false) {
                        let k = self.is_const(b)? as i128;
                        if hi < k || (op == Op::Ule && hi == k) {
                            return Some(self.konst(1, 1));
                        }
                        if lo > k || (op == Op::Ult && lo == k) {
                            return Some(self.konst(1, 0));
                        }
                    }
                    return None;
                }
                let df = Self::lin_add(&x, &y, -1);
                let (lo, hi) = self.lin_range(&df);
                let r = match op {
                    Op::Eq if lo > 0 || hi < 0 => Some(false),
                    Op::Eq if lo == 0 && hi == 0 => Some(true),
                    Op::Eq => None,
                    Op::Ult | Op::Slt if hi < 0 => Some(true),
                    Op::Ult | Op::Slt if lo >= 0 => Some(false),
                    Op::Ule | Op::Sle if hi <= 0 => Some(true),
                    Op::Ule | Op::Sle if lo > 0 => Some(false),
                    _ => None,
                };
                r.map(|v| self.konst(1, v as u128))
            }
        }
    }
    fn addk(&self, e: E) -> (E, u128) {
        let n = self.n(e);
        if n.op == Op::Add {
            if let Some(k) = self.is_const(n.b) {
                return (n.a, k);
            }
        }
        (e, 0)
    }

    /// Evaluate under a model.
    pub fn eval(&self, e: E, m: &Model) -> u128 {
        let n = self.n(e);
        match n.op {
            Op::Const => return n.k,
            Op::Var => return m.get(n.a) & mask(n.w),
            _ => {}
        }
        if let Some(v) = m.cache.borrow().get(&e) {
            return *v;
        }
        // iterative for depth
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if m.cache.borrow().contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = self.n(x);
            let get = |y: E| -> Option<u128> {
                let yn = self.n(y);
                match yn.op {
                    Op::Const => Some(yn.k),
                    Op::Var => Some(m.get(yn.a) & mask(yn.w)),
                    _ => m.cache.borrow().get(&y).copied(),
                }
            };
            let v = match n.op {
                Op::Const => n.k,
                Op::Var => m.get(n.a) & mask(n.w),
                Op::Ite => match get(n.a) {
                    None => {
                        stack.push(n.a);
                        continue;
                    }
                    Some(c) => {
                        let t = if c & 1 == 1 { n.b } else { n.c };
                        match get(t) {
                            None => {
                                stack.push(t);
                                continue;
                            }
                            Some(v) => v,
                        }
                    }
                },
                Op::Extract | Op::SExt | Op::Bound => match get(n.a) {
                    None => {
                        stack.push(n.a);
                        continue;
                    }
                    Some(v) if n.op == Op::Bound => v,
                    Some(v) => {
                        if n.op == Op::Extract {
                            if self.w(n.a) > 128 {
                                panic!("eval extract of wide value")
                            }
                            (v >> n.c) & mask(n.w)
                        } else {
                            sext128(v, self.w(n.a)) as u128 & mask(n.w)
                        }
                    }
                },
                _ => {
                    let (x1, y1) = (get(n.a), get(n.b));
                    match (x1, y1) {
                        (Some(p), Some(q)) => {
                            if n.op == Op::Concat {
                                let wl = self.w(n.b);
                                if wl >= 128 {
                                    q
                                } else {
                                    ((p << wl) | q) & mask(n.w)
                                }
                            } else {
                                Self::fold(n.op, self.w(n.a), p, q).unwrap()
                            }
                        }
                        (None, _) => {
                            stack.push(n.a);
                            continue;
                        }
                        (_, None) => {
                            stack.push(n.b);
                            continue;
                        }
                    }
                }
            };
            m.cache.borrow_mut().insert(x, v);
            stack.pop();
        }
        let r = m.cache.borrow()[&e];
        r
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{:#x}:{}", n.k, n.w),
            Op::Var => format!("v{}", n.a),
            _ if depth == 0 => format!("#{}", e),
            Op::Extract => format!("ext({},{},{})", self.show(n.a, depth - 1), n.c, n.w),
            Op::Bound => format!("bound({},{})", self.show(n.a, depth - 1), n.k),
            Op::SExt => format!("sext({},{})", self.show(n.a, depth - 1), n.w),
            Op::Ite => format!(
                "ite({},{},{})",
                self.show(n.a, depth - 1),
                self.show(n.b, depth - 1),
                self.show(n.c, depth - 1)
            ),
            _ => format!("{:?}({},{})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}

pub fn subset(a: &[u64], b: &[u64]) -> bool {
    for (i, v) in a.iter().enumerate() {
        if *v & !b.get(i).copied().unwrap_or(0) != 0 {
            return false;
        }
    }
    true
}
pub fn intersects(a: &[u64], b: &[u64]) -> bool {
    a.iter().zip(b.iter()).any(|(x, y)| x & y != 0)
}

pub struct Model {
    pub vals: Vec<u128>,
    pub cache: RefCell<HashMap<E, u128>>,
}
impl Model {
    pub fn new(vals: Vec<u128>) -> Model {
        Model { vals, cache: RefCell::new(HashMap::new()) }
    }
    #[inline]
    pub fn get(&self, i: u32) -> u128 {
        self.vals.get(i as usize).copied().unwrap_or(0)
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    struct Rng(u64);
    impl Rng {
        fn next(&mut self, n: u64) -> u64 {
            self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (self.0 >> 33) % n
        }
    }
    const OPS: [Op; 18] = [
        Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::SDiv, Op::URem, Op::SRem, Op::Shl, Op::LShr, Op::AShr, Op::And, Op::Or, Op::Xor, Op::Eq,
        Op::Ult, Op::Ule, Op::Slt, Op::Sle,
    ];
    /// Random expressions have the value that direct evaluation gives.
    #[test]
    fn simplification_keeps_values() {
        let mut r = Rng(7);
        for round in 0..4000 {
            let mut p = Pool::new();
            let bounds: Vec<u64> = (0..3).map(|_| 1 + [1, 2, 10, 59, 365, 86399, 70000][r.next(7) as usize]).collect();
            // 8 assignments of 6 byte variables and 3 bounded 32-bit values (as 4 bytes each)
            let models: Vec<Model> = (0..8)
                .map(|_| {
                    let mut v: Vec<u128> = (0..6).map(|_| r.next(256) as u128).collect();
                    for b in &bounds {
                        let x = if r.next(4) == 0 { b - 1 } else { r.next(*b) };
                        v.extend((0..4).map(|i| (x >> (8 * i) & 255) as u128));
                    }
                    Model::new(v)
                })
                .collect();
            let mut pool: Vec<(E, Vec<u128>)> = vec![];
            for i in 0..6 {
                let e = p.var(i, 8);
                pool.push((e, models.iter().map(|m| m.get(i)).collect()));
            }
            for (j, b) in bounds.iter().enumerate() {
                let mut e = p.var(6 + 4 * j as u32, 8);
                for i in 1..4 {
                    let x = p.var(6 + 4 * j as u32 + i, 8);
                    e = p.concat(x, e);
                }
                let e = p.zext(e, 64);
                let e = p.bound(e, *b as u128 - 1);
                let v = models.iter().map(|m| (0..4).map(|i| m.get(6 + 4 * j as u32 + i) << (8 * i)).sum()).collect();
                pool.push((e, v));
            }
            for _ in 0..40 {
                let (a, av) = pool[r.next(pool.len() as u64) as usize].clone();
                let w = p.w(a);
                let n = match r.next(8) {
                    0 => {
                        let lo = r.next(w as u64) as u32;
                        let k = 1 + r.next((w - lo) as u64) as u32;
                        let lo = if r.next(2) == 0 { 0 } else { lo };
                        (p.extract(a, lo, k), av.iter().map(|v| v >> lo & mask(k)).collect())
                    }
                    1 if w < 64 => {
                        let k = [8, 16, 32, 64].into_iter().find(|k| *k > w).unwrap();
                        if r.next(2) == 0 {
                            (p.zext(a, k), av)
                        } else {
                            (p.sext(a, k), av.iter().map(|v| sext128(*v, w) as u128 & mask(k)).collect())
                        }
                    }
                    2 => {
                        let (b, bv) = pool[r.next(pool.len() as u64) as usize].clone();
                        let wb = p.w(b);
                        if w + wb > 64 {
                            continue;
                        }
                        (p.concat(a, b), av.iter().zip(&bv).map(|(x, y)| x << wb | y).collect())
                    }
                    3 => {
                        let same: Vec<_> = pool.iter().filter(|q| p.w(q.0) == w).cloned().collect();
                        let conds: Vec<_> = pool.iter().filter(|q| p.w(q.0) == 1).cloned().collect();
                        if conds.is_empty() {
                            continue;
                        }
                        let (b, bv) = same[r.next(same.len() as u64) as usize].clone();
                        let (c, cv) = conds[r.next(conds.len() as u64) as usize].clone();
                        (p.ite(c, a, b), (0..8).map(|i| if cv[i] == 1 { av[i] } else { bv[i] }).collect())
                    }
                    _ => {
                        let op = OPS[r.next(18) as usize];
                        let same: Vec<_> = pool.iter().filter(|q| p.w(q.0) == w).cloned().collect();
                        let (b, bv) = if r.next(2) == 0 {
                            same[r.next(same.len() as u64) as usize].clone()
                        } else {
                            let k = [0, 1, 2, 3, 7, 10, 60, 97, 100, 128, 255, 365, 3600, 86400, u64::MAX, u64::MAX - 5, r.next(300), r.next(1 << 30)]
                                [r.next(18) as usize] as u128
                                & mask(w);
                            (p.konst(w, k), vec![k; 8])
                        };
                        let rw = if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) { 1 } else { w };
                        let _ = rw;
                        (p.bin(op, a, b), (0..8).map(|i| Pool::fold(op, w, av[i], bv[i]).unwrap()).collect())
                    }
                };
                for (i, m) in models.iter().enumerate() {
                    assert_eq!(p.eval(n.0, m), n.1[i], "round {} {}", round, p.show(n.0, 6));
                }
                if let Some(root) = p.root(n.0) {
                    if let Some(t) = p.table(n.0) {
                        for (i, m) in models.iter().enumerate() {
                            assert_eq!(t[p.eval(root, m) as usize], n.1[i], "table, round {}", round);
                        }
                    }
                }
                pool.push(n);
            }
        }
    }
}
