//! Hash-consed bit-vector expressions over 8-bit symbolic input bytes, and the solver interface.
use crate::z3;
use std::collections::HashMap;
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::Mutex;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) {
        let mut i = 0;
        while i + 8 <= b.len() {
            self.write_u64(u64::from_le_bytes(b[i..i + 8].try_into().unwrap()));
            i += 8;
        }
        while i < b.len() { self.write_u64(b[i] as u64); i += 1; }
    }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
        self.0 ^= self.0 >> 29;
    }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;

pub type E = u32; // expression id, 0 = "no expression" (concrete)

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Zext, Sext, Extract, // Extract: k = low bit
    Concat,              // args: bytes, little endian
    Ite,
    Lut,                 // a: unary index expression's variable; table in tab
    AndN,                // boolean conjunction of args
    Fun1,                // k = function code (ctlz etc.), only unary expressions
}
use Op::*;

pub const F_CTLZ: u64 = 1;
pub const F_CTTZ: u64 = 2;
pub const F_CTPOP: u64 = 3;
pub const F_BSWAP: u64 = 4;
pub const F_BITREV: u64 = 5;
pub const F_ABS: u64 = 6;

pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u64,
    pub sup: u64, // bitmask of variables
    pub tab: u32, // table id for unary expressions, u32::MAX otherwise
    pub args: u32, // index into arglists
    pub shash: u64, // structure up to variable renaming
}
pub struct Tab {
    pub v: Box<[u64; 256]>,
    pub bits: [u64; 4], // v != 0
}

pub fn mask(w: u8) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
pub fn sx(v: u64, w: u8) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

pub fn fold(op: Op, w: u8, a: u64, b: u64) -> u64 {
    let m = mask(w);
    match op {
        Add => a.wrapping_add(b) & m,
        Sub => a.wrapping_sub(b) & m,
        Mul => a.wrapping_mul(b) & m,
        UDiv => if b == 0 { m } else { a / b },
        URem => if b == 0 { a } else { a % b },
        SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { m } else { x.wrapping_div(y) as u64 & m } }
        SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u64 & m } }
        And => a & b,
        Or => a | b,
        Xor => a ^ b,
        Shl => if b >= w as u64 { 0 } else { (a << b) & m },
        LShr => if b >= w as u64 { 0 } else { a >> b },
        AShr => { let s = if b >= w as u64 { w as u64 - 1 } else { b }; (sx(a, w) >> s) as u64 & m }
        Eq => (a == b) as u64,
        Ult => (a < b) as u64,
        Ule => (a <= b) as u64,
        Slt => (sx(a, w) < sx(b, w)) as u64,
        Sle => (sx(a, w) <= sx(b, w)) as u64,
        _ => panic!("fold {:?}", op),
    }
}
pub fn fun1(code: u64, w: u8, x: u64) -> u64 {
    match code {
        F_CTLZ => if x == 0 { w as u64 } else { x.leading_zeros() as u64 - (64 - w as u64) },
        F_CTTZ => if x == 0 { w as u64 } else { x.trailing_zeros() as u64 },
        F_CTPOP => x.count_ones() as u64,
        F_BSWAP => x.swap_bytes() >> (64 - w as u32),
        F_BITREV => x.reverse_bits() >> (64 - w as u32),
        F_ABS => { let s = sx(x, w); (s.wrapping_abs() as u64) & mask(w) }
        _ => panic!(),
    }
}

pub type Dom = [u64; 4];
pub fn dom_and(a: &Dom, b: &Dom) -> Dom { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
pub fn dom_andn(a: &Dom, b: &Dom) -> Dom { [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]] }
pub fn dom_empty(a: &Dom) -> bool { a[0] | a[1] | a[2] | a[3] == 0 }
pub fn dom_count(a: &Dom) -> u32 { a.iter().map(|x| x.count_ones()).sum() }
pub fn dom_first(a: &Dom) -> Option<u8> {
    for i in 0..4 { if a[i] != 0 { return Some((i as u32 * 64 + a[i].trailing_zeros()) as u8); } }
    None
}
pub fn dom_has(a: &Dom, v: u8) -> bool { a[(v >> 6) as usize] >> (v & 63) & 1 == 1 }
pub fn dom_iter(a: &Dom) -> impl Iterator<Item = u8> + '_ { (0..=255u8).filter(move |v| dom_has(a, *v)) }

#[derive(Default)]
pub struct SolverStats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64, pub certs: u64,
    pub time: std::time::Duration,
    pub cache_hits: u64,
    pub witness: u64,
}
/// no solver queries after this
pub static DEADLINE: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
pub static CERTIFIED: Mutex<Option<HashSet<u64>>> = Mutex::new(None);

pub struct Store {
    pub nodes: Vec<Node>,
    pub arglists: Vec<Box<[E]>>,
    map: FxMap<(Op, u8, E, E, E, u64), E>,
    argmap: FxMap<(Op, u8, Box<[E]>), E>,
    pub tabs: Vec<Tab>,
    tabmap: FxMap<Box<[u64; 256]>, u32>,
    unode: FxMap<(u8, u8, u32), E>, // (var, width, tab) -> node
    opcache: FxMap<(Op, u8, u32, u32, u64), (u32, u64)>, // tab result (u32::MAX -> constant)
    qcache: FxMap<Vec<u64>, bool>,
    certified: HashSet<u64>,
    pub stats: SolverStats,
    ctx: z3::Ctx,
    solver: z3::Solver,
    zq: u32,
    zmemo: FxMap<E, z3::Ast>,
}
unsafe impl Send for Store {}
const NOTAB: u32 = u32::MAX;

impl Store {
    pub fn new() -> Store {
        let mut s = Store {
            nodes: Vec::new(), arglists: vec![], map: Default::default(), argmap: Default::default(), tabs: vec![],
            tabmap: Default::default(), unode: Default::default(), opcache: Default::default(), qcache: Default::default(),
            certified: HashSet::new(), stats: Default::default(), ctx: std::ptr::null_mut(), solver: std::ptr::null_mut(), zq: 0,
            zmemo: Default::default(),
        };
        s.nodes.push(Node { op: Const, w: 0, a: 0, b: 0, c: 0, k: 0, sup: 0, tab: NOTAB, args: 0, shash: 0 });
        s
    }
    #[inline] pub fn n(&self, e: E) -> &Node { &self.nodes[e as usize] }
    #[inline] pub fn w(&self, e: E) -> u8 { self.nodes[e as usize].w }
    pub fn as_const(&self, e: E) -> Option<u64> { let n = self.n(e); if n.op == Const { Some(n.k) } else { None } }

    fn push(&mut self, n: Node) -> E {
        self.nodes.push(n);
        (self.nodes.len() - 1) as E
    }
    fn sh(&self, op: Op, w: u8, k: u64, ch: &[E]) -> u64 {
        let mut h = Fx(0x1234567 + op as u64 * 77 + ((w as u64) << 32));
        h.write_u64(k);
        for c in ch { h.write_u64(self.n(*c).shash); }
        h.finish()
    }
    pub fn konst(&mut self, w: u8, k: u64) -> E {
        let k = k & mask(w);
        let key = (Const, w, 0, 0, 0, k);
        if let Some(e) = self.map.get(&key) { return *e; }
        let sh = self.sh(Const, w, k, &[]);
        let e = self.push(Node { op: Const, w, a: 0, b: 0, c: 0, k, sup: 0, tab: NOTAB, args: 0, shash: sh });
        self.map.insert(key, e);
        e
    }
    fn intern_tab(&mut self, t: Box<[u64; 256]>) -> u32 {
        if let Some(i) = self.tabmap.get(&t) { return *i; }
        let mut bits = [0u64; 4];
        for i in 0..256 { if t[i] != 0 { bits[i >> 6] |= 1 << (i & 63); } }
        let id = self.tabs.len() as u32;
        self.tabs.push(Tab { v: t.clone(), bits });
        self.tabmap.insert(t, id);
        id
    }
    pub fn var(&mut self, i: u8) -> E {
        let key = (Var, 8, 0, 0, 0, i as u64);
        if let Some(e) = self.map.get(&key) { return *e; }
        let mut t = Box::new([0u64; 256]);
        for i in 0..256 { t[i] = i as u64; }
        let tab = self.intern_tab(t);
        let sh = self.sh(Var, 8, 0, &[]);
        let e = self.push(Node { op: Var, w: 8, a: 0, b: 0, c: 0, k: i as u64, sup: 1 << i, tab, args: 0, shash: sh });
        self.map.insert(key, e);
        self.unode.insert((i, 8, tab), e);
        e
    }
    /// node for a unary table (constant tables fold)
    fn unary(&mut self, var: u8, w: u8, t: u32, op: Op, a: E, b: E, c: E, k: u64) -> E {
        if let Some(e) = self.unode.get(&(var, w, t)) { return *e; }
        let sh = match op {
            Ite => self.sh(op, w, k, &[a, b, c]),
            Lut => self.sh(op, w, t as u64 + 1, &[]),
            _ if b != 0 => self.sh(op, w, k, &[a, b]),
            _ => self.sh(op, w, k, &[a]),
        };
        let e = self.push(Node { op, w, a, b, c, k, sup: 1 << var, tab: t, args: 0, shash: sh });
        self.unode.insert((var, w, t), e);
        e
    }
    fn const_tab(t: &[u64; 256]) -> Option<u64> {
        if t.iter().all(|x| *x == t[0]) { Some(t[0]) } else { None }
    }
    /// a unary expression given by its value table (symbolic-index load)
    pub fn lut(&mut self, var: u8, w: u8, t: Box<[u64; 256]>) -> E {
        if let Some(k) = Self::const_tab(&t) { return self.konst(w, k); }
        let id = self.intern_tab(t);
        let v = self.var(var);
        self.unary(var, w, id, Lut, v, 0, 0, 0)
    }
    #[inline]
    fn single(sup: u64) -> Option<u8> { if sup.is_power_of_two() { Some(sup.trailing_zeros() as u8) } else { None } }

    fn val_at(&self, e: E, i: usize) -> u64 {
        let n = self.n(e);
        if n.op == Const { n.k } else { self.tabs[n.tab as usize].v[i] }
    }
    fn okey(&self, e: E) -> (u32, u64) { let n = self.n(e); if n.op == Const { (NOTAB, n.k) } else { (n.tab, 0) } }

    fn out_w(op: Op, w: u8) -> u8 { match op { Eq | Ult | Ule | Slt | Sle => 1, _ => w } }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let ow = Self::out_w(op, w);
        let (sa, sb) = (self.n(a).sup, self.n(b).sup);
        let sup = sa | sb;
        if sup == 0 {
            let k = fold(op, w, self.n(a).k, self.n(b).k);
            return self.konst(ow, k);
        }
        if let Some(v) = Self::single(sup) {
            let (ta, ka) = self.okey(a);
            let (tb, kb) = self.okey(b);
            let key = (op, w, ta, tb, ka ^ kb.rotate_left(1) ^ ((ta == NOTAB) as u64) << 63);
            // ka and kb are never both non-zero here (one side has a table)
            let r = match self.opcache.get(&key) {
                Some(r) => *r,
                None => {
                    let mut t = Box::new([0u64; 256]);
                    for i in 0..256 { t[i] = fold(op, w, self.val_at(a, i), self.val_at(b, i)); }
                    let r = match Self::const_tab(&t) { Some(k) => (NOTAB, k), None => (self.intern_tab(t), 0) };
                    // exact key check: only cache when it cannot collide
                    if ka == 0 || kb == 0 { self.opcache.insert((op, w, ta, tb, ka ^ kb.rotate_left(1) ^ ((ta == NOTAB) as u64) << 63), r); }
                    r
                }
            };
            if r.0 == NOTAB { return self.konst(ow, r.1); }
            return self.unary(v, ow, r.0, op, a, b, 0, 0);
        }
        self.bin_multi(op, w, ow, a, b, sup)
    }
    fn bytes_of(&mut self, e: E) -> Option<Vec<E>> {
        // byte decomposition if it is "free"
        let (op, w, args) = { let n = self.n(e); (n.op, n.w, n.args) };
        if w % 8 != 0 || w == 0 { return None; }
        match op {
            Const => { let k = self.n(e).k; Some((0..w / 8).map(|i| self.konst(8, k >> (8 * i as u64) & 0xff)).collect()) }
            Concat => Some(self.arglists[args as usize].to_vec()),
            _ => {
                if self.n(e).tab != NOTAB { Some((0..w / 8).map(|i| self.extract(e, 8 * i, 8)).collect()) } else { None }
            }
        }
    }
    fn bin_multi(&mut self, op: Op, w: u8, ow: u8, mut a: E, mut b: E, sup: u64) -> E {
        // canonical order for commutative operators: constant to the right
        if matches!(op, Add | Mul | And | Or | Xor | Eq) {
            let (ca, cb) = (self.n(a).op == Const, self.n(b).op == Const);
            if (ca && !cb) || (ca == cb && a > b) { std::mem::swap(&mut a, &mut b); }
        }
        let cb = self.as_const(b);
        let m = mask(w);
        match (op, cb) {
            (Add, Some(0)) | (Sub, Some(0)) | (Or, Some(0)) | (Xor, Some(0)) | (Shl, Some(0)) | (LShr, Some(0)) | (AShr, Some(0)) => return a,
            (Mul, Some(1)) => return a,
            (Mul, Some(0)) | (And, Some(0)) => return self.konst(w, 0),
            (And, Some(k)) if k == m => return a,
            (Or, Some(k)) if k == m => return self.konst(w, m),
            (Ult, Some(0)) => return self.konst(1, 0),
            (Ule, Some(k)) if k == m => return self.konst(1, 1),
            _ => {}
        }
        if a == b {
            match op {
                Eq | Ule | Sle => return self.konst(1, 1),
                Ult | Slt => return self.konst(1, 0),
                Sub | Xor => return self.konst(w, 0),
                And | Or => return a,
                _ => {}
            }
        }
        if w == 1 {
            match op {
                Eq => { // boolean equality
                    if cb == Some(1) { return a; }
                    if cb == Some(0) { let one = self.konst(1, 1); return self.bin(Xor, a, one); }
                }
                And => return self.andn(vec![a, b]),
                Xor if cb == Some(1) => {
                    let (o, x, y) = { let n = self.n(a); (n.op, n.a, n.b) };
                    if o == Xor && self.as_const(y) == Some(1) { return x; }
                }
                _ => {}
            }
        }
        // comparisons of if-then-else with constant arms
        if let Some(kb) = cb {
            if self.n(a).op == Ite {
                let (c, x, y) = { let n = self.n(a); (n.a, n.b, n.c) };
                if let (Some(kx), Some(ky)) = (self.as_const(x), self.as_const(y)) {
                    let (fx, fy) = (fold(op, w, kx, kb), fold(op, w, ky, kb));
                    let (fx, fy) = (self.konst(ow, fx), self.konst(ow, fy));
                    return self.ite(c, fx, fy);
                }
            }
        }
        // byte-wise operators
        if w % 8 == 0 && w > 8 {
            match op {
                And | Or | Xor => {
                    if let (Some(x), Some(y)) = (self.bytes_of(a), self.bytes_of(b)) {
                        let v: Vec<E> = x.iter().zip(y.iter()).map(|(p, q)| self.bin(op, *p, *q)).collect();
                        return self.concat(v);
                    }
                }
                Eq => {
                    if let (Some(x), Some(y)) = (self.bytes_of(a), self.bytes_of(b)) {
                        let v: Vec<E> = x.iter().zip(y.iter()).map(|(p, q)| self.bin(Eq, *p, *q)).collect();
                        return self.andn(v);
                    }
                }
                Shl | LShr => {
                    if let Some(k) = cb {
                        if k % 8 == 0 && k < w as u64 {
                            if let Some(x) = self.bytes_of(a) {
                                let n = (k / 8) as usize;
                                let z = self.konst(8, 0);
                                let mut v = vec![z; x.len()];
                                for i in 0..x.len() {
                                    if op == Shl { if i >= n { v[i] = x[i - n]; } } else if i + n < x.len() { v[i] = x[i + n]; }
                                }
                                return self.concat(v);
                            }
                        }
                    }
                }
                Add => {
                    // disjoint byte lanes: addition is concatenation
                    if let (Some(x), Some(y)) = (self.bytes_of(a), self.bytes_of(b)) {
                        let z = self.konst(8, 0);
                        if x.iter().zip(y.iter()).all(|(p, q)| *p == z || *q == z) {
                            let v: Vec<E> = x.iter().zip(y.iter()).map(|(p, q)| if *p == z { *q } else { *p }).collect();
                            return self.concat(v);
                        }
                    }
                    // (x + k1) + k2
                    if let Some(k) = cb {
                        let (o, x, y) = { let n = self.n(a); (n.op, n.a, n.b) };
                        if o == Add { if let Some(k1) = self.as_const(y) { let kk = self.konst(w, k.wrapping_add(k1)); return self.bin(Add, x, kk); } }
                    }
                }
                _ => {}
            }
        }
        let key = (op, w, a, b, 0, 0);
        if let Some(e) = self.map.get(&key) { return *e; }
        let sh = self.sh(op, ow, 0, &[a, b]);
        let e = self.push(Node { op, w: ow, a, b, c: 0, k: 0, sup, tab: NOTAB, args: 0, shash: sh });
        self.map.insert(key, e);
        e
    }
    pub fn not(&mut self, a: E) -> E { let w = self.w(a); let k = self.konst(w, mask(w)); self.bin(Xor, a, k) }

    pub fn andn(&mut self, v: Vec<E>) -> E {
        let mut out: Vec<E> = vec![];
        for e in v {
            let (op, args) = { let n = self.n(e); (n.op, n.args) };
            if op == Const { if self.n(e).k == 0 { return e; } continue; }
            if op == AndN { let l = self.arglists[args as usize].to_vec(); for x in l { if !out.contains(&x) { out.push(x); } } continue; }
            if !out.contains(&e) { out.push(e); }
        }
        if out.is_empty() { return self.konst(1, 1); }
        if out.len() == 1 { return out[0]; }
        let sup = out.iter().fold(0, |s, e| s | self.n(*e).sup);
        if Self::single(sup).is_some() {
            let mut r = out[0];
            for e in &out[1..] { r = self.bin(And, r, *e); }
            return r;
        }
        let key = (AndN, 1u8, out.clone().into_boxed_slice());
        if let Some(e) = self.argmap.get(&key) { return *e; }
        let sh = self.sh(AndN, 1, 0, &out);
        let id = self.arglists.len() as u32;
        self.arglists.push(out.into_boxed_slice());
        let e = self.push(Node { op: AndN, w: 1, a: 0, b: 0, c: 0, k: 0, sup, tab: NOTAB, args: id, shash: sh });
        self.argmap.insert(key, e);
        e
    }
    pub fn concat(&mut self, v: Vec<E>) -> E {
        let w = (v.len() * 8) as u8;
        if v.len() == 1 { return v[0]; }
        let sup = v.iter().fold(0, |s, e| s | self.n(*e).sup);
        if sup == 0 {
            let mut k = 0u64;
            for (i, e) in v.iter().enumerate() { k |= self.n(*e).k << (8 * i); }
            return self.konst(w, k);
        }
        if let Some(var) = Self::single(sup) {
            let mut t = Box::new([0u64; 256]);
            for i in 0..256 { for (j, e) in v.iter().enumerate() { t[i] |= self.val_at(*e, i) << (8 * j); } }
            if let Some(k) = Self::const_tab(&t) { return self.konst(w, k); }
            let id = self.intern_tab(t);
            if let Some(e) = self.unode.get(&(var, w, id)) { return *e; }
            let sh = self.sh(Concat, w, 0, &v);
            let al = self.arglists.len() as u32;
            self.arglists.push(v.into_boxed_slice());
            let e = self.push(Node { op: Concat, w, a: 0, b: 0, c: 0, k: 0, sup, tab: id, args: al, shash: sh });
            self.unode.insert((var, w, id), e);
            return e;
        }
        // Extract(n,0),Extract(n,8).. -> n
        let n0 = self.n(v[0]);
        if n0.op == Extract && n0.k == 0 {
            let src = n0.a;
            if self.w(src) == w && v.iter().enumerate().all(|(i, e)| { let n = self.n(*e); n.op == Extract && n.a == src && n.k == 8 * i as u64 }) {
                return src;
            }
        }
        let key = (Concat, w, v.clone().into_boxed_slice());
        if let Some(e) = self.argmap.get(&key) { return *e; }
        let sh = self.sh(Concat, w, 0, &v);
        let al = self.arglists.len() as u32;
        self.arglists.push(v.into_boxed_slice());
        let e = self.push(Node { op: Concat, w, a: 0, b: 0, c: 0, k: 0, sup, tab: NOTAB, args: al, shash: sh });
        self.argmap.insert(key, e);
        e
    }
    fn un(&mut self, op: Op, ow: u8, a: E, k: u64, f: impl Fn(u64) -> u64) -> E {
        let sup = self.n(a).sup;
        if sup == 0 { let v = f(self.n(a).k); return self.konst(ow, v); }
        if let Some(v) = Self::single(sup) {
            let key = (op, ow, self.n(a).tab, self.w(a) as u32, k);
            let r = match self.opcache.get(&key) {
                Some(r) => *r,
                None => {
                    let mut t = Box::new([0u64; 256]);
                    for i in 0..256 { t[i] = f(self.val_at(a, i)) & mask(ow); }
                    let r = match Self::const_tab(&t) { Some(k) => (NOTAB, k), None => (self.intern_tab(t), 0) };
                    self.opcache.insert(key, r);
                    r
                }
            };
            if r.0 == NOTAB { return self.konst(ow, r.1); }
            return self.unary(v, ow, r.0, op, a, 0, 0, k);
        }
        let key = (op, ow, a, 0, 0, k);
        if let Some(e) = self.map.get(&key) { return *e; }
        let sh = self.sh(op, ow, k, &[a]);
        let e = self.push(Node { op, w: ow, a, b: 0, c: 0, k, sup, tab: NOTAB, args: 0, shash: sh });
        self.map.insert(key, e);
        e
    }
    pub fn zext(&mut self, a: E, ow: u8) -> E {
        let w = self.w(a);
        if w == ow { return a; }
        let multi = !self.n(a).sup.is_power_of_two();
        if multi && w % 8 == 0 && ow % 8 == 0 {
            if let Some(mut v) = self.bytes_of(a) {
                let z = self.konst(8, 0);
                v.resize(ow as usize / 8, z);
                return self.concat(v);
            }
        }
        if multi && self.n(a).op == Ite {
            let (c, x, y) = { let n = self.n(a); (n.a, n.b, n.c) };
            if let (Some(kx), Some(ky)) = (self.as_const(x), self.as_const(y)) {
                let (p, q) = (self.konst(ow, kx), self.konst(ow, ky));
                return self.ite(c, p, q);
            }
        }
        if multi && w == 1 {
            let (p, q) = (self.konst(ow, 1), self.konst(ow, 0));
            return self.ite(a, p, q);
        }
        self.un(Zext, ow, a, 0, |x| x)
    }
    pub fn sext(&mut self, a: E, ow: u8) -> E {
        let w = self.w(a);
        if w == ow { return a; }
        let multi = !self.n(a).sup.is_power_of_two();
        if multi && w == 1 {
            let (p, q) = (self.konst(ow, !0), self.konst(ow, 0));
            return self.ite(a, p, q);
        }
        if multi && self.n(a).op == Ite {
            let (c, x, y) = { let n = self.n(a); (n.a, n.b, n.c) };
            if let (Some(kx), Some(ky)) = (self.as_const(x), self.as_const(y)) {
                let (p, q) = (self.konst(ow, sx(kx, w) as u64), self.konst(ow, sx(ky, w) as u64));
                return self.ite(c, p, q);
            }
        }
        self.un(Sext, ow, a, 0, move |x| sx(x, w) as u64 & mask(ow))
    }
    pub fn extract(&mut self, a: E, lo: u8, ow: u8) -> E {
        let w = self.w(a);
        if lo == 0 && ow == w { return a; }
        let (op, sup, args, aa, ak) = { let n = self.n(a); (n.op, n.sup, n.args, n.a, n.k) };
        if !sup.is_power_of_two() && sup != 0 {
            if op == Concat && lo % 8 == 0 && ow % 8 == 0 {
                let l = &self.arglists[args as usize];
                let v = l[lo as usize / 8..(lo + ow) as usize / 8].to_vec();
                return self.concat(v);
            }
            if op == Concat && lo % 8 + ow <= 8 {
                let b = self.arglists[args as usize][lo as usize / 8];
                return self.extract(b, lo % 8, ow);
            }
            if op == Extract { return self.extract(aa, lo + ak as u8, ow); }
            if op == Zext {
                let iw = self.w(aa);
                if lo >= iw { return self.konst(ow, 0); }
                if lo + ow <= iw { return self.extract(aa, lo, ow); }
            }
            if op == Ite {
                let (c, x, y) = { let n = self.n(a); (n.a, n.b, n.c) };
                if let (Some(kx), Some(ky)) = (self.as_const(x), self.as_const(y)) {
                    let (p, q) = (self.konst(ow, kx >> lo), self.konst(ow, ky >> lo));
                    return self.ite(c, p, q);
                }
            }
        }
        self.un(Extract, ow, a, lo as u64, move |x| (x >> lo) & mask(ow))
    }
    pub fn fun(&mut self, code: u64, a: E) -> Option<E> {
        let w = self.w(a);
        if !self.n(a).sup.is_power_of_two() && self.n(a).sup != 0 { return None; }
        // k packs the function code and the width so that the op cache key is exact
        Some(self.un(Fun1, w, a, code | (w as u64) << 8, move |x| fun1(code, w, x)))
    }
    pub fn ite(&mut self, c: E, x: E, y: E) -> E {
        if x == y { return x; }
        if let Some(k) = self.as_const(c) { return if k != 0 { x } else { y }; }
        let w = self.w(x);
        let sup = self.n(c).sup | self.n(x).sup | self.n(y).sup;
        if let Some(v) = Self::single(sup) {
            let mut t = Box::new([0u64; 256]);
            for i in 0..256 { t[i] = if self.val_at(c, i) != 0 { self.val_at(x, i) } else { self.val_at(y, i) }; }
            if let Some(k) = Self::const_tab(&t) { return self.konst(w, k); }
            let id = self.intern_tab(t);
            return self.unary(v, w, id, Ite, c, x, y, 0);
        }
        if w == 1 {
            match (self.as_const(x), self.as_const(y)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (_, Some(0)) => return self.andn(vec![c, x]),
                (Some(0), _) => { let n = self.not(c); return self.andn(vec![n, y]); }
                _ => {}
            }
        }
        let key = (Ite, w, c, x, y, 0);
        if let Some(e) = self.map.get(&key) { return *e; }
        let sh = self.sh(Ite, w, 0, &[c, x, y]);
        let e = self.push(Node { op: Ite, w, a: c, b: x, c: y, k: 0, sup, tab: NOTAB, args: 0, shash: sh });
        self.map.insert(key, e);
        e
    }

    pub fn eval(&self, e: E, model: &[u8; 64]) -> u64 {
        let n = self.n(e);
        if n.op == Const { return n.k; }
        if n.tab != NOTAB { return self.tabs[n.tab as usize].v[model[n.sup.trailing_zeros() as usize] as usize]; }
        match n.op {
            Zext => self.eval(n.a, model),
            Sext => sx(self.eval(n.a, model), self.w(n.a)) as u64 & mask(n.w),
            Extract => self.eval(n.a, model) >> n.k & mask(n.w),
            Concat => { let l = &self.arglists[n.args as usize]; let mut r = 0; for (i, x) in l.iter().enumerate() { r |= self.eval(*x, model) << (8 * i); } r }
            AndN => { let l = &self.arglists[n.args as usize]; l.iter().all(|x| self.eval(*x, model) != 0) as u64 }
            Ite => if self.eval(n.a, model) != 0 { self.eval(n.b, model) } else { self.eval(n.c, model) },
            op => fold(op, self.w(n.a), self.eval(n.a, model), self.eval(n.b, model)),
        }
    }

    // ---- solver --------------------------------------------------------------------------
    fn ensure_ctx(&mut self) {
        unsafe {
            if self.ctx.is_null() || self.zq > 2000 {
                if !self.ctx.is_null() {
                    z3::Z3_solver_dec_ref(self.ctx, self.solver);
                    z3::Z3_del_context(self.ctx);
                }
                let cfg = z3::Z3_mk_config();
                z3::Z3_set_param_value(cfg, c"timeout".as_ptr(), c"10000".as_ptr());
                self.ctx = z3::Z3_mk_context(cfg);
                z3::Z3_del_config(cfg);
                self.solver = z3::Z3_mk_simple_solver(self.ctx);
                z3::Z3_solver_inc_ref(self.ctx, self.solver);
                self.zq = 0;
                self.zmemo.clear();
            }
            self.zq += 1;
        }
    }
    fn zconst(&self, w: u8, k: u64) -> z3::Ast { unsafe { z3::Z3_mk_unsigned_int64(self.ctx, k, z3::Z3_mk_bv_sort(self.ctx, w as u32)) } }
    fn zvar(&self, i: u8) -> z3::Ast {
        unsafe {
            let s = std::ffi::CString::new(format!("x{}", i)).unwrap();
            z3::Z3_mk_const(self.ctx, z3::Z3_mk_string_symbol(self.ctx, s.as_ptr()), z3::Z3_mk_bv_sort(self.ctx, 8))
        }
    }
    /// membership of an 8-bit term in a set, as a disjunction of intervals
    fn zmember(&self, x: z3::Ast, d: &Dom) -> z3::Ast {
        unsafe {
            let mut parts = vec![];
            let mut i = 0usize;
            while i < 256 {
                if dom_has(d, i as u8) {
                    let mut j = i;
                    while j + 1 < 256 && dom_has(d, (j + 1) as u8) { j += 1; }
                    let (lo, hi) = (self.zconst(8, i as u64), self.zconst(8, j as u64));
                    if i == j { parts.push(z3::Z3_mk_eq(self.ctx, x, lo)); } else {
                        let v = [z3::Z3_mk_bvule(self.ctx, lo, x), z3::Z3_mk_bvule(self.ctx, x, hi)];
                        parts.push(z3::Z3_mk_and(self.ctx, 2, v.as_ptr()));
                    }
                    i = j + 1;
                } else { i += 1; }
            }
            if parts.is_empty() { return z3::Z3_mk_false(self.ctx); }
            z3::Z3_mk_or(self.ctx, parts.len() as u32, parts.as_ptr())
        }
    }
    fn zb2bv(&self, b: z3::Ast) -> z3::Ast { unsafe { z3::Z3_mk_ite(self.ctx, b, self.zconst(1, 1), self.zconst(1, 0)) } }
    fn zast(&mut self, e: E) -> z3::Ast {
        if let Some(a) = self.zmemo.get(&e) { return *a; }
        let (op, w, a, b, c, k, args, tab, sup) = { let n = self.n(e); (n.op, n.w, n.a, n.b, n.c, n.k, n.args, n.tab, n.sup) };
        let cx = self.ctx;
        let r = unsafe {
            match op {
                Const => self.zconst(w, k),
                Var => self.zvar(k as u8),
                Zext => { let x = self.zast(a); let iw = self.w(a); z3::Z3_mk_zero_ext(cx, (w - iw) as u32, x) }
                Sext => { let x = self.zast(a); let iw = self.w(a); z3::Z3_mk_sign_ext(cx, (w - iw) as u32, x) }
                Extract => { let x = self.zast(a); z3::Z3_mk_extract(cx, (k as u32) + w as u32 - 1, k as u32, x) }
                Concat => {
                    let l = self.arglists[args as usize].to_vec();
                    let mut r = self.zast(l[0]);
                    for x in &l[1..] { let y = self.zast(*x); r = z3::Z3_mk_concat(cx, y, r); }
                    r
                }
                AndN => {
                    let l = self.arglists[args as usize].to_vec();
                    let one = self.zconst(1, 1);
                    let v: Vec<z3::Ast> = l.iter().map(|x| { let y = self.zast(*x); z3::Z3_mk_eq(cx, y, one) }).collect();
                    self.zb2bv(z3::Z3_mk_and(cx, v.len() as u32, v.as_ptr()))
                }
                Ite => { let (p, q, r) = (self.zast(a), self.zast(b), self.zast(c)); let one = self.zconst(1, 1); z3::Z3_mk_ite(cx, z3::Z3_mk_eq(cx, p, one), q, r) }
                Lut | Fun1 => {
                    // the function table itself: nested if-then-else over value classes
                    let v = sup.trailing_zeros() as u8;
                    let x = self.zvar(v);
                    let t = self.tabs[tab as usize].v.clone();
                    let mut groups: std::collections::BTreeMap<u64, Dom> = Default::default();
                    for i in 0..256usize { groups.entry(t[i]).or_insert([0; 4])[i >> 6] |= 1 << (i & 63); }
                    let mut r: Option<z3::Ast> = None;
                    for (val, d) in groups {
                        let kv = self.zconst(w, val);
                        r = Some(match r { None => kv, Some(p) => z3::Z3_mk_ite(cx, self.zmember(x, &d), kv, p) });
                    }
                    r.unwrap()
                }
                _ => {
                    let (x, y) = (self.zast(a), self.zast(b));
                    match op {
                        Add => z3::Z3_mk_bvadd(cx, x, y), Sub => z3::Z3_mk_bvsub(cx, x, y), Mul => z3::Z3_mk_bvmul(cx, x, y),
                        UDiv => z3::Z3_mk_bvudiv(cx, x, y), URem => z3::Z3_mk_bvurem(cx, x, y),
                        SDiv => z3::Z3_mk_bvsdiv(cx, x, y), SRem => z3::Z3_mk_bvsrem(cx, x, y),
                        And => z3::Z3_mk_bvand(cx, x, y), Or => z3::Z3_mk_bvor(cx, x, y), Xor => z3::Z3_mk_bvxor(cx, x, y),
                        Shl => z3::Z3_mk_bvshl(cx, x, y), LShr => z3::Z3_mk_bvlshr(cx, x, y), AShr => z3::Z3_mk_bvashr(cx, x, y),
                        Eq => self.zb2bv(z3::Z3_mk_eq(cx, x, y)), Ult => self.zb2bv(z3::Z3_mk_bvult(cx, x, y)),
                        Ule => self.zb2bv(z3::Z3_mk_bvule(cx, x, y)), Slt => self.zb2bv(z3::Z3_mk_bvslt(cx, x, y)),
                        Sle => self.zb2bv(z3::Z3_mk_bvsle(cx, x, y)),
                        _ => panic!("zast {:?}", op),
                    }
                }
            }
        };
        self.zmemo.insert(e, r);
        r
    }
    /// the solver's verdict; None: no answer in time (the exploration then counts as incomplete)
    fn check(&mut self) -> Option<bool> {
        let t0 = std::time::Instant::now();
        if DEADLINE.get().map_or(false, |d| t0 > *d) { self.stats.unknown += 1; return None; }
        let r = unsafe { z3::Z3_solver_check(self.ctx, self.solver) };
        let err = unsafe { z3::Z3_get_error_code(self.ctx) };
        self.stats.time += t0.elapsed();
        self.stats.queries += 1;
        match r {
            1 => { self.stats.sat += 1; Some(true) }
            -1 => { self.stats.unsat += 1; Some(false) }
            _ => { if err != 0 && t0.elapsed().as_secs() < 9 { panic!("z3 error {}", err); } self.stats.unknown += 1; None }
        }
    }
    /// Z3 certificate that a unary branch predicate is exactly its table.
    pub fn certify(&mut self, e: E) {
        let sh = self.n(e).shash;
        if self.certified.contains(&sh) { return; }
        self.certified.insert(sh);
        {
            let mut g = CERTIFIED.lock().unwrap();
            if !g.get_or_insert_with(HashSet::new).insert(sh) { return; }
        }
        self.ensure_ctx();
        let z = self.zast(e);
        let v = self.n(e).sup.trailing_zeros() as u8;
        let bits = self.tabs[self.n(e).tab as usize].bits;
        unsafe {
            let x = self.zvar(v);
            let mem = self.zmember(x, &bits);
            let one = self.zconst(1, 1);
            let p = z3::Z3_mk_eq(self.ctx, z, one);
            let ne = z3::Z3_mk_not(self.ctx, z3::Z3_mk_eq(self.ctx, p, mem));
            z3::Z3_solver_reset(self.ctx, self.solver);
            z3::Z3_solver_assert(self.ctx, self.solver, ne);
        }
        self.stats.certs += 1;
        if self.check() == Some(true) { panic!("predicate table refuted by Z3 (engine bug)"); }
    }
    fn slice(&self, sup: u64, rel: &[(E, bool)]) -> (u64, Vec<(E, bool)>) {
        let mut s = sup;
        let mut used = vec![false; rel.len()];
        loop {
            let mut ch = false;
            for (i, (e, _)) in rel.iter().enumerate() {
                if !used[i] && self.n(*e).sup & s != 0 { used[i] = true; s |= self.n(*e).sup; ch = true; }
            }
            if !ch { break; }
        }
        (s, rel.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, x)| *x).collect())
    }
    fn assert_all(&mut self, s: u64, doms: &[Dom], cs: &[(E, bool)]) {
        unsafe { z3::Z3_solver_reset(self.ctx, self.solver); }
        for v in 0..64u8 {
            if s >> v & 1 == 1 {
                let d = doms[v as usize];
                if dom_count(&d) < 256 { let x = self.zvar(v); let m = self.zmember(x, &d); unsafe { z3::Z3_solver_assert(self.ctx, self.solver, m) }; }
            }
        }
        for (e, pol) in cs {
            let z = self.zast(*e);
            unsafe {
                let k = self.zconst(1, *pol as u64);
                z3::Z3_solver_assert(self.ctx, self.solver, z3::Z3_mk_eq(self.ctx, z, k));
            }
        }
    }
    /// a concrete satisfying assignment, if a small search finds one. Unsatisfiability is decided
    /// here only when at most 4096 assignments remain and the term is false on each; otherwise
    /// by the solver.
    fn witness(&self, s: u64, doms: &[Dom], cs: &[(E, bool)]) -> Option<bool> {
        let vars: Vec<usize> = (0..64).filter(|v| s >> v & 1 == 1).collect();
        if cs.is_empty() { return Some(true); }
        if vars.len() > 6 { return None; }
        let total: f64 = vars.iter().map(|v| dom_count(&doms[*v]) as f64).product();
        let complete = total <= 4096.0;
        let per = if complete { 256 } else { match vars.len() { 0 | 1 => 256, 2 => 32, 3 => 10, 4 => 5, _ => 3 } };
        let lists: Vec<Vec<u8>> = vars.iter().map(|v| {
            let all: Vec<u8> = dom_iter(&doms[*v]).collect();
            if all.len() <= per { all } else { (0..per).map(|i| all[i * (all.len() - 1) / (per - 1)]).collect() }
        }).collect();
        if lists.iter().any(|l| l.is_empty()) { return Some(false); }
        let mut idx = vec![0usize; vars.len()];
        let mut m = [0u8; 64];
        loop {
            for (i, v) in vars.iter().enumerate() { m[*v] = lists[i][idx[i]]; }
            if cs.iter().all(|(e, p)| (self.eval(*e, &m) != 0) == *p) { return Some(true); }
            let mut i = 0;
            loop {
                if i == idx.len() { return if complete { Some(false) } else { None }; }
                idx[i] += 1;
                if idx[i] < lists[i].len() { break; }
                idx[i] = 0;
                i += 1;
            }
        }
    }
    /// satisfiability of domains & relational constraints & e == pol
    pub fn sat(&mut self, doms: &[Dom], rel: &[(E, bool)], e: E, pol: bool) -> bool {
        let (s, mut cs) = self.slice(self.n(e).sup, rel);
        cs.push((e, pol));
        cs.sort();
        cs.dedup();
        let mut key: Vec<u64> = Vec::with_capacity(cs.len() + 8);
        for (e, p) in &cs { key.push((*e as u64) << 1 | *p as u64); }
        key.push(u64::MAX);
        for v in 0..64 { if s >> v & 1 == 1 { key.push(v as u64); key.extend_from_slice(&doms[v]); } }
        if let Some(r) = self.qcache.get(&key) { self.stats.cache_hits += 1; return *r; }
        // unary conjuncts are domain restrictions
        let mut rd: Vec<Dom> = doms.to_vec();
        let mut rc: Vec<(E, bool)> = Vec::with_capacity(cs.len());
        let mut dead = false;
        for (e, p) in &cs {
            let n = self.n(*e);
            if n.sup.is_power_of_two() && n.tab != NOTAB {
                let v = n.sup.trailing_zeros() as usize;
                let bits = self.tabs[n.tab as usize].bits;
                rd[v] = if *p { dom_and(&rd[v], &bits) } else { dom_andn(&rd[v], &bits) };
                if dom_empty(&rd[v]) { dead = true; }
            } else { rc.push((*e, *p)); }
        }
        let r = if dead { false } else {
            match self.witness(s, &rd, &rc) {
                Some(r) => { self.stats.witness += 1; r }
                None => {
                    self.ensure_ctx();
                    self.assert_all(s, &rd, &rc);
                    // no answer: follow the branch; what it finds is confirmed natively or dropped
                    match self.check() { Some(r) => r, None => return true }
                }
            }
        };
        if self.qcache.len() > 2_000_000 { self.qcache.clear(); }
        self.qcache.insert(key, r);
        r
    }
    /// a model of all constraints. Unconstrained variables get a preferred value of their domain.
    pub fn model(&mut self, doms: &[Dom], rel: &[(E, bool)], pick: u64) -> Option<[u8; 64]> {
        let mut m = [0u8; 64];
        for (i, d) in doms.iter().enumerate() {
            let n = dom_count(d);
            if n == 0 { return None; }
            // seed-dependent choice inside the domain
            let k = (pick.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(i as u32 * 7) >> 33) as u32 % n;
            m[i] = dom_iter(d).nth(k as usize).unwrap();
        }
        if rel.is_empty() { return Some(m); }
        // try a few assignments before asking the solver
        let sup = rel.iter().fold(0, |s, (e, _)| s | self.n(*e).sup);
        let mut r = pick | 1;
        for _ in 0..24 {
            if rel.iter().all(|(e, p)| (self.eval(*e, &m) != 0) == *p) { return Some(m); }
            for (i, d) in doms.iter().enumerate() {
                if sup >> i & 1 == 1 {
                    r = r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    m[i] = dom_iter(d).nth(((r >> 33) as u32 % dom_count(d)) as usize).unwrap();
                }
            }
        }
        let s = rel.iter().fold(0, |s, (e, _)| s | self.n(*e).sup);
        self.ensure_ctx();
        self.assert_all(s, doms, rel);
        if self.check() != Some(true) { return None; }
        unsafe {
            let md = z3::Z3_solver_get_model(self.ctx, self.solver);
            z3::Z3_model_inc_ref(self.ctx, md);
            for v in 0..64u8 {
                if s >> v & 1 == 1 {
                    let x = self.zvar(v);
                    let mut out: z3::Ast = std::ptr::null_mut();
                    let ok = z3::Z3_model_eval(self.ctx, md, x, true, &mut out);
                    let mut u = 0u64;
                    if !ok || !z3::Z3_get_numeral_uint64(self.ctx, out, &mut u) { panic!("z3 model"); }
                    m[v as usize] = u as u8;
                }
            }
            z3::Z3_model_dec_ref(self.ctx, md);
        }
        for (e, p) in rel { assert_eq!(self.eval(*e, &m) != 0, *p, "z3 model does not satisfy constraint (engine bug)"); }
        Some(m)
    }
}
