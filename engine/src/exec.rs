//! Symbolic interpreter.
use crate::expr::{self, dom_and, dom_andn, dom_count, dom_empty, dom_first, dom_iter, Dom, Store, E};
use crate::ir::*;
use std::sync::atomic::Ordering::Relaxed;

#[derive(Clone, Copy, Default)]
pub struct Val { pub v: u64, pub e: E }
impl Val { #[inline] pub fn c(v: u64) -> Val { Val { v, e: 0 } } }

#[derive(Clone, Copy)]
pub struct Frame { pub f: u32, pub pc: u32, pub base: u32, pub sp: u64, pub d: u32, pub cont: u32 } // cont: call index + 1 of an invoke

#[derive(Default)]
pub struct Region { pub data: Vec<u8>, pub flags: Vec<u8> }
impl Region {
    fn clone_from_(&mut self, o: &Region, used: usize) {
        self.data.clear();
        self.data.extend_from_slice(&o.data[..used]);
        self.flags.clear();
        self.flags.extend_from_slice(&o.flags[..(used + 63) / 64]);
    }
}

#[derive(Default)]
pub struct State {
    pub regs: Vec<Val>,
    pub frames: Vec<Frame>,
    pub mutr: Region,
    pub stack: Region,
    pub heap: Region,
    pub sp: u64,
    pub sym: expr::FxMap<u64, E>,
    pub doms: Vec<Dom>,
    pub dom0: Vec<Dom>,
    pub rel: Vec<(E, bool)>,
    pub relsup: u64,
    pub steps: u64,
    pub emits: Vec<Val>,
    pub input: Vec<Val>,
    pub case: u32,
}
impl State {
    pub fn copy_from(&mut self, o: &State) {
        let top = o.frames.last().map(|f| f.base as usize).unwrap_or(0);
        let _ = top;
        self.regs.clear();
        self.regs.extend_from_slice(&o.regs);
        self.frames.clone_from(&o.frames);
        let n = o.mutr.data.len();
        self.mutr.clone_from_(&o.mutr, n);
        let n = o.stack.data.len().min((o.sp as usize + 63) / 64 * 64);
        self.stack.clone_from_(&o.stack, n);
        let n = o.heap.data.len();
        self.heap.clone_from_(&o.heap, n);
        self.sp = o.sp;
        // the part of the stack above sp is dropped, with the symbolic bytes that were left there
        let end = R_STACK << 32 | self.stack.data.len() as u64;
        self.sym.clear();
        self.sym.extend(o.sym.iter().filter(|(a, _)| *a >> 32 != R_STACK || **a < end).map(|(a, e)| (*a, *e)));
        self.doms.clone_from(&o.doms);
        self.dom0.clone_from(&o.dom0);
        self.rel.clone_from(&o.rel);
        self.relsup = o.relsup;
        self.steps = o.steps;
        self.emits.clone_from(&o.emits);
        self.input.clone_from(&o.input);
        self.case = o.case;
    }
}

#[derive(Clone, Debug)]
pub enum Cstr { Dom(u8, Dom), Rel(E, bool) }

#[derive(Debug)]
pub enum Stop {
    Split(Vec<Cstr>),
    End(End),
}
#[derive(Clone, Debug)]
pub enum End {
    Return,
    Discard,
    Fail(String),
    Panic(String),
    Steps,
    Memory,
    Engine(String),
}
type R<T> = Result<T, Stop>;
fn eng<T>(s: impl Into<String>) -> R<T> { Err(Stop::End(End::Engine(s.into()))) }

/// a snapshot with the alternatives that have not been explored yet
pub struct Pend { pub st: State, pub alts: Vec<Cstr>, pub lo: usize, pub hi: usize }

pub struct Exec<'m> {
    pub m: &'m Module,
    pub st: State,
    pub store: Store,
    pub pending: Vec<Pend>,
    pub pool: Vec<State>,
    /// domains of the first holes, for a part of a case that another worker gave away
    pub pre: Vec<Dom>,
    pub max_steps: u64,
    pub total_steps: u64,
    pub splits: u64,
    pub memcmp_f: u32,
    pub memchr_f: u32,
    pub forks_by_func: std::collections::HashMap<u32, u64>,
    pub profile: bool,
    pub retval: Val,
    pub cur_hashy: bool,
}
enum Dec { T, F, Split(Vec<Cstr>) }

macro_rules! get { ($s:expr, $regs:expr, $consts:expr, $o:expr) => {{ let o = $o; if o & K != 0 { Val { v: unsafe { *$consts.get_unchecked((o & !K) as usize) }, e: 0 } } else { unsafe { *$regs.add(o as usize) } } }}; }

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module) -> Exec<'m> {
        Exec {
            m, st: State::default(), store: Store::new(), pending: vec![], pool: vec![], pre: vec![], max_steps: 20_000_000, total_steps: 0, splits: 0,
            memcmp_f: m.fmap.get("lrsym_memcmp").copied().unwrap_or(u32::MAX), memchr_f: m.fmap.get("lrsym_memchr").copied().unwrap_or(u32::MAX),
            forks_by_func: Default::default(), profile: false, retval: Val::default(), cur_hashy: false,
        }
    }
    pub fn start(&mut self, f: u32, args: &[u64], case: u32) {
        let m = self.m;
        let st = &mut self.st;
        st.regs.clear();
        st.frames.clear();
        st.mutr.data.clear();
        st.mutr.data.extend_from_slice(&m.mdata);
        st.mutr.flags.clear();
        st.mutr.flags.resize((m.mdata.len() + 63) / 64 + 1, 0);
        st.stack.data.clear();
        st.stack.flags.clear();
        st.heap.data.clear();
        st.heap.data.resize(64, 0);
        st.heap.flags.clear();
        st.heap.flags.resize(1, 0);
        st.sp = 64;
        st.sym.clear();
        st.doms.clear();
        st.dom0.clear();
        st.rel.clear();
        st.relsup = 0;
        st.steps = 0;
        st.emits.clear();
        st.input.clear();
        st.case = case;
        self.push_frame(f, args.iter().map(|a| Val::c(*a)).collect::<Vec<_>>().as_slice(), 0, 0);
    }
    fn push_frame(&mut self, f: u32, args: &[Val], d: u32, cont: u32) {
        let code = self.m.code(f);
        self.m.funcs[f as usize].used.store(true, Relaxed);
        let st = &mut self.st;
        let base = st.regs.len() as u32;
        st.regs.resize(base as usize + code.nslots as usize, Val::default());
        let sp = st.sp;
        let n = args.len().min(code.nparams as usize);
        st.regs[base as usize..base as usize + n].copy_from_slice(&args[..n]);
        for (s, o) in &code.allocas { st.regs[(base + s) as usize] = Val::c(R_STACK << 32 | (sp + o)); }
        st.sp += code.alloca_size;
        let need = (st.sp as usize + 63) / 64 * 64 + 64;
        if st.stack.data.len() < need { st.stack.data.resize(need, 0); st.stack.flags.resize(need / 64, 0); }
        st.frames.push(Frame { f, pc: 0, base, sp, d, cont });
    }

    // ---- memory --------------------------------------------------------------------------
    #[inline]
    fn region(&self, addr: u64, n: usize) -> R<(&Region, usize)> {
        let off = (addr & 0xffff_ffff) as usize;
        let r = match addr >> 32 { R_STACK => &self.st.stack, R_HEAP => &self.st.heap, R_MUT => &self.st.mutr, _ => return eng(format!("bad address {:#x}", addr)) };
        if off + n > r.data.len() { return eng(format!("address out of range {:#x}+{}", addr, n)); }
        Ok((r, off))
    }
    #[inline]
    fn region_mut(&mut self, addr: u64, n: usize) -> R<(&mut Region, usize)> {
        let off = (addr & 0xffff_ffff) as usize;
        let r = match addr >> 32 { R_STACK => &mut self.st.stack, R_HEAP => &mut self.st.heap, R_MUT => &mut self.st.mutr, _ => return eng(format!("bad store address {:#x}", addr)) };
        if off + n > r.data.len() { return eng(format!("store address out of range {:#x}+{}", addr, n)); }
        Ok((r, off))
    }
    #[inline]
    fn flagged(r: &Region, off: usize, n: usize) -> bool {
        let (a, b) = (off >> 6, (off + n.max(1) - 1) >> 6);
        r.flags[a] != 0 || (a != b && r.flags[a + 1..=b].iter().any(|x| *x != 0))
    }
    fn read_conc(data: &[u8], off: usize, n: usize) -> u64 {
        unsafe {
            let p = data.as_ptr().add(off);
            match n { 1 => *p as u64, 2 => (p as *const u16).read_unaligned() as u64, 4 => (p as *const u32).read_unaligned() as u64, 8 => (p as *const u64).read_unaligned(), _ => { let mut b = [0u8; 8]; b[..n].copy_from_slice(&data[off..off + n]); u64::from_le_bytes(b) } }
        }
    }
    pub fn load(&mut self, addr: u64, n: usize, w: u8) -> R<Val> {
        if addr >> 32 == R_CONST {
            let off = (addr & 0xffff_ffff) as usize;
            if off + n > self.m.cdata.len() { return eng(format!("const address out of range {:#x}", addr)); }
            return Ok(Val::c(Self::read_conc(&self.m.cdata, off, n) & expr::mask(w)));
        }
        let (r, off) = self.region(addr, n)?;
        if !Self::flagged(r, off, n) { return Ok(Val::c(Self::read_conc(&r.data, off, n) & expr::mask(w))); }
        self.load_sym(addr, n, w)
    }
    fn load_sym(&mut self, addr: u64, n: usize, w: u8) -> R<Val> {
        let mut bytes: Vec<E> = Vec::with_capacity(n);
        let mut any = false;
        for i in 0..n as u64 {
            if let Some(e) = self.st.sym.get(&(addr + i)) { bytes.push(*e); any = true; } else { bytes.push(0); }
        }
        let (r, off) = self.region(addr, n)?;
        let conc = Self::read_conc(&r.data, off, n);
        if !any { return Ok(Val::c(conc & expr::mask(w))); }
        for i in 0..n { if bytes[i] == 0 { bytes[i] = self.store.konst(8, conc >> (8 * i) & 0xff); } }
        let e = self.store.concat(bytes);
        let e = self.store.extract(e, 0, w);
        Ok(self.wrap(e))
    }
    /// normalise: constants become concrete
    fn wrap(&self, e: E) -> Val {
        let n = self.store.n(e);
        if n.op == expr::Op::Const { Val::c(n.k) } else { Val { v: 0, e } }
    }
    fn unwrap(&mut self, v: Val, w: u8) -> E { if v.e != 0 { v.e } else { self.store.konst(w, v.v) } }

    pub fn store(&mut self, addr: u64, v: Val, n: usize) -> R<()> {
        if v.e == 0 {
            let (r, off) = self.region_mut(addr, n)?;
            unsafe {
                let p = r.data.as_mut_ptr().add(off);
                match n { 1 => *p = v.v as u8, 2 => (p as *mut u16).write_unaligned(v.v as u16), 4 => (p as *mut u32).write_unaligned(v.v as u32), 8 => (p as *mut u64).write_unaligned(v.v), _ => return eng("store size") }
            }
            if Self::flagged(r, off, n) { self.clear_sym(addr, n); }
            return Ok(());
        }
        // resolve to a constant if all its variables are fixed
        if let Some(k) = self.fixed(v.e) { return self.store(addr, Val::c(k), n); }
        let mut e = v.e;
        let w = self.store.w(e);
        if (w as usize) < n * 8 { e = self.store.zext(e, (n * 8) as u8); }
        for i in 0..n {
            let b = self.store.extract(e, (8 * i) as u8, 8);
            let bv = self.wrap(b);
            self.store_byte(addr + i as u64, bv)?;
        }
        Ok(())
    }
    fn store_byte(&mut self, addr: u64, b: Val) -> R<()> {
        if b.e == 0 { return self.store(addr, b, 1); }
        let had = self.st.sym.insert(addr, b.e).is_some();
        let (r, off) = self.region_mut(addr, 1)?;
        if !had { r.flags[off >> 6] += 1; }
        r.data[off] = 0;
        Ok(())
    }
    fn clear_sym(&mut self, addr: u64, n: usize) {
        for i in 0..n as u64 {
            if self.st.sym.remove(&(addr + i)).is_some() {
                let (r, off) = match self.region_mut(addr + i, 1) { Ok(x) => x, _ => return };
                r.flags[off >> 6] -= 1;
            }
        }
    }
    fn memcpy(&mut self, dst: u64, src: u64, n: usize) -> R<()> {
        if n == 0 || dst == src { return Ok(()); }
        let mut syms: Vec<(u64, E)> = vec![];
        // source bytes
        let tmp: Vec<u8>;
        if src >> 32 == R_CONST {
            let off = (src & 0xffff_ffff) as usize;
            if off + n > self.m.cdata.len() { return eng(format!("memcpy from bad const address {:#x}+{}", src, n)); }
            let m = self.m;
            let (r, o) = self.region_mut(dst, n)?;
            r.data[o..o + n].copy_from_slice(&m.cdata[off..off + n]);
            if Self::flagged(r, o, n) { self.clear_sym(dst, n); }
            return Ok(());
        }
        let sr = src >> 32;
        {
            let (r, o) = self.region(src, n)?;
            if Self::flagged(r, o, n) {
                for i in 0..n as u64 {
                    // skip clean lines
                    if r.flags[(o + i as usize) >> 6] == 0 { continue; }
                    if let Some(e) = self.st.sym.get(&(src + i)) { syms.push((i, *e)); }
                }
            }
            if dst >> 32 == sr { tmp = vec![]; } else { tmp = r.data[o..o + n].to_vec(); }
        }
        if dst >> 32 == sr {
            let so = (src & 0xffff_ffff) as usize;
            let (r, o) = self.region_mut(dst, n)?;
            r.data.copy_within(so..so + n, o);
        } else {
            let (r, o) = self.region_mut(dst, n)?;
            r.data[o..o + n].copy_from_slice(&tmp);
        }
        let fl = { let (r, o) = self.region(dst, n)?; Self::flagged(r, o, n) };
        if fl { self.clear_sym(dst, n); }
        for (i, e) in syms { self.store_byte(dst + i, Val { v: 0, e })?; }
        Ok(())
    }
    fn has_sym(&self, addr: u64, n: usize) -> bool {
        if n == 0 || addr >> 32 == R_CONST { return false; }
        match self.region(addr, n) {
            Ok((r, o)) => Self::flagged(r, o, n) && (0..n as u64).any(|i| self.st.sym.contains_key(&(addr + i))),
            Err(_) => false,
        }
    }
    fn bytes<'a>(&'a self, addr: u64, n: usize) -> R<&'a [u8]> {
        if addr >> 32 == R_CONST { let o = (addr & 0xffff_ffff) as usize; if o + n > self.m.cdata.len() { return eng("bytes"); } return Ok(&self.m.cdata[o..o + n]); }
        let (r, o) = self.region(addr, n)?;
        Ok(&r.data[o..o + n])
    }
    fn malloc(&mut self, n: u64, align: u64) -> R<u64> {
        let al = align.max(16) as usize;
        let h = &mut self.st.heap;
        let mut p = h.data.len() + 16;
        p = (p + al - 1) / al * al;
        let end = p + ((n as usize + 15) / 16 * 16).max(16);
        if end > 64 << 20 { return Err(Stop::End(End::Memory)); }
        h.data.resize(end, 0);
        h.flags.resize((end + 63) / 64, 0);
        h.data[p - 8..p].copy_from_slice(&n.to_le_bytes());
        Ok(R_HEAP << 32 | p as u64)
    }
    fn realloc(&mut self, p: u64, n: u64) -> R<u64> {
        if p == 0 { return self.malloc(n, 16); }
        let off = (p & 0xffff_ffff) as usize;
        if p >> 32 != R_HEAP || off < 16 || off > self.st.heap.data.len() { return eng("realloc of bad pointer"); }
        let old = Self::read_conc(&self.st.heap.data, off - 8, 8);
        let cap = ((old as usize + 15) / 16 * 16).max(16);
        if off + cap == self.st.heap.data.len() && n >= old {
            let end = off + ((n as usize + 15) / 16 * 16).max(16);
            if end > 64 << 20 { return Err(Stop::End(End::Memory)); }
            self.st.heap.data.resize(end, 0);
            self.st.heap.flags.resize((end + 63) / 64, 0);
            self.st.heap.data[off - 8..off].copy_from_slice(&n.to_le_bytes());
            return Ok(p);
        }
        let q = self.malloc(n, 16)?;
        self.memcpy(q, p, old.min(n) as usize)?;
        Ok(q)
    }

    // ---- symbolic reasoning -------------------------------------------------------------
    /// value if all variables in the support are fixed by their domains
    fn fixed(&self, e: E) -> Option<u64> {
        let n = self.store.n(e);
        if n.op == expr::Op::Const { return Some(n.k); }
        let mut s = n.sup;
        if s.is_power_of_two() {
            let v = s.trailing_zeros() as usize;
            let d = &self.st.doms[v];
            if n.w == 1 {
                let b = &self.store.tabs[n.tab as usize].bits;
                let t = !dom_empty(&dom_and(d, b));
                let f = !dom_empty(&dom_andn(d, b));
                return match (t, f) { (true, false) => Some(1), (false, true) => Some(0), _ => None };
            }
            if dom_count(d) == 1 { return Some(self.store.tabs[n.tab as usize].v[dom_first(d).unwrap() as usize]); }
            return None;
        }
        let mut model = [0u8; 64];
        while s != 0 {
            let v = s.trailing_zeros() as usize;
            s &= s - 1;
            let d = &self.st.doms[v];
            if dom_count(d) != 1 { return None; }
            model[v] = dom_first(d).unwrap();
        }
        Some(self.store.eval(e, &model))
    }
    /// decide a boolean expression under the path condition, or say how to split
    fn decide(&mut self, e: E) -> Dec {
        use expr::Op;
        let (op, sup, a, b, c, args) = { let n = self.store.n(e); (n.op, n.sup, n.a, n.b, n.c, n.args) };
        if op == Op::Const { return if self.store.n(e).k != 0 { Dec::T } else { Dec::F }; }
        if sup.is_power_of_two() {
            let v = sup.trailing_zeros() as u8;
            let d = self.st.doms[v as usize];
            let bits = self.store.tabs[self.store.n(e).tab as usize].bits;
            let (t, f) = (dom_and(&d, &bits), dom_andn(&d, &bits));
            let (mut ft, mut ff) = (!dom_empty(&t), !dom_empty(&f));
            if ft && ff && self.st.relsup & sup != 0 {
                let (doms, rel) = (self.st.doms.clone(), self.st.rel.clone());
                ft = self.store.sat(&doms, &rel, e, true);
                ff = if ft { self.store.sat(&doms, &rel, e, false) } else { true };
            }
            if ft && !ff { return Dec::T; }
            if !ft { return Dec::F; }
            self.store.certify(e);
            return Dec::Split(vec![Cstr::Dom(v, t), Cstr::Dom(v, f)]);
        }
        match op {
            Op::AndN => {
                let l = self.store.arglists[args as usize].clone();
                let mut sp = None;
                for x in l.iter() {
                    match self.decide(*x) { Dec::F => return Dec::F, Dec::T => {} Dec::Split(s) => { if sp.is_none() { sp = Some(s); } } }
                }
                return match sp { None => Dec::T, Some(s) => Dec::Split(s) };
            }
            Op::Ite => {
                return match self.decide(a) { Dec::T => self.decide(b), Dec::F => self.decide(c), s => s };
            }
            Op::Xor | Op::Or | Op::And => {
                let x = self.decide(a);
                if let Dec::Split(s) = x {
                    // short circuits
                    if op == Op::Or { if let Dec::T = self.decide(b) { return Dec::T; } }
                    if op == Op::And { if let Dec::F = self.decide(b) { return Dec::F; } }
                    return Dec::Split(s);
                }
                let xt = matches!(x, Dec::T);
                if op == Op::Or && xt { return Dec::T; }
                if op == Op::And && !xt { return Dec::F; }
                let y = self.decide(b);
                return match (op, y) {
                    (_, Dec::Split(s)) => Dec::Split(s),
                    (Op::Xor, Dec::T) => if xt { Dec::F } else { Dec::T },
                    (_, y) => if op == Op::Xor { if xt { Dec::T } else { Dec::F } } else { y },
                };
            }
            _ => {}
        }
        if let Some(k) = self.fixed(e) { return if k != 0 { Dec::T } else { Dec::F }; }
        if let Some((_, p)) = self.st.rel.iter().find(|(x, _)| *x == e) { return if *p { Dec::T } else { Dec::F }; }
        let (doms, rel) = (self.st.doms.clone(), self.st.rel.clone());
        let ft = self.store.sat(&doms, &rel, e, true);
        if !ft { return Dec::F; }
        let ff = self.store.sat(&doms, &rel, e, false);
        if !ff { return Dec::T; }
        Dec::Split(vec![Cstr::Rel(e, true), Cstr::Rel(e, false)])
    }
    fn branch(&mut self, v: Val) -> R<bool> {
        if v.e == 0 { return Ok(v.v & 1 != 0); }
        match self.decide(v.e) { Dec::T => Ok(true), Dec::F => Ok(false), Dec::Split(s) => Err(Stop::Split(s)) }
    }
    /// groups of the domain of a unary expression by a key of its value
    fn groups<Kk: Ord>(&mut self, e: E, key: impl Fn(u64) -> Kk) -> (u8, Vec<(Kk, Dom)>) {
        let n = self.store.n(e);
        let v = n.sup.trailing_zeros() as u8;
        let d = self.st.doms[v as usize];
        let t = &self.store.tabs[n.tab as usize].v;
        let mut g: std::collections::BTreeMap<Kk, Dom> = Default::default();
        for x in dom_iter(&d) { g.entry(key(t[x as usize])).or_insert([0; 4])[(x >> 6) as usize] |= 1 << (x & 63); }
        let mut r: Vec<(Kk, Dom)> = g.into_iter().collect();
        if self.st.relsup >> v & 1 == 1 && r.len() > 1 {
            // drop groups that the relational constraints exclude
            let (doms, rel) = (self.st.doms.clone(), self.st.rel.clone());
            let var = self.store.var(v);
            r.retain(|(_, dd)| {
                let mut t = Box::new([0u64; 256]);
                for x in dom_iter(dd) { t[x as usize] = 1; }
                let p = self.store.lut(v, 1, t);
                let _ = var;
                self.store.as_const(p) == Some(1) || self.store.sat(&doms, &rel, p, true)
            });
        }
        (v, r)
    }
    /// complete case split of an expression on one of its variables
    fn split_var(&mut self, e: E) -> Stop {
        let mut s = self.store.n(e).sup;
        let mut best: Option<(u32, u8)> = None;
        while s != 0 {
            let v = s.trailing_zeros() as u8;
            s &= s - 1;
            let c = dom_count(&self.st.doms[v as usize]);
            if c > 1 && best.map(|b| c < b.0).unwrap_or(true) { best = Some((c, v)); }
        }
        let v = best.unwrap().1;
        let x = self.store.var(v);
        let (v, g) = self.groups(x, |k| k);
        Stop::Split(g.into_iter().map(|(_, d)| Cstr::Dom(v, d)).collect())
    }
    /// concrete value of an operand, splitting completely if it is symbolic
    fn conc(&mut self, v: Val) -> R<u64> {
        if v.e == 0 { return Ok(v.v); }
        if let Some(k) = self.fixed(v.e) { return Ok(k); }
        if self.store.n(v.e).sup.is_power_of_two() {
            let (var, g) = self.groups(v.e, |k| k);
            if g.len() == 1 { return Ok(g[0].0); }
            return Err(Stop::Split(g.into_iter().map(|(_, d)| Cstr::Dom(var, d)).collect()));
        }
        Err(self.split_var(v.e))
    }
    fn sym_load(&mut self, a: Val, off: u64, n: usize, w: u8) -> R<Val> {
        if let Some(k) = self.fixed(a.e) { return self.load(k.wrapping_add(off), n, w); }
        if self.store.n(a.e).sup.is_power_of_two() {
            let (var, g) = self.groups(a.e, |k| k);
            if g.len() == 1 { return self.load(g[0].0.wrapping_add(off), n, w); }
            let mut t = Box::new([0u64; 256]);
            let mut all = true;
            for (addr, d) in &g {
                let v = self.load(addr.wrapping_add(off), n, w)?;
                if v.e != 0 { all = false; break; }
                for x in dom_iter(d) { t[x as usize] = v.v; }
            }
            if all {
                // outside the current domain the table is don't-care (0)
                let e = self.store.lut(var, w, t);
                return Ok(self.wrap(e));
            }
            return Err(Stop::Split(g.into_iter().map(|(_, d)| Cstr::Dom(var, d)).collect()));
        }
        Err(self.split_var(a.e))
    }

    fn bin_sym(&mut self, op: Bop, w: u8, a: Val, b: Val) -> R<Val> {
        use expr::Op;
        let (ea, eb) = (self.unwrap_fix(a, w), self.unwrap_fix(b, w));
        let o = match op {
            Bop::Add => Op::Add, Bop::Sub => Op::Sub, Bop::Mul => Op::Mul, Bop::UDiv => Op::UDiv, Bop::URem => Op::URem, Bop::SDiv => Op::SDiv, Bop::SRem => Op::SRem,
            Bop::And => Op::And, Bop::Or => Op::Or, Bop::Xor => Op::Xor, Bop::Shl => Op::Shl, Bop::LShr => Op::LShr, Bop::AShr => Op::AShr,
        };
        // avoid hash-like towers: multiplication of multi-variable terms is split
        if op == Bop::Mul {
            for e in [ea, eb] { let n = self.store.n(e); if n.sup.count_ones() > 4 { return Err(self.split_var(e)); } }
        }
        // hashing of symbolic bytes (SipHash in std's HashMap): case split instead of a term tower
        if w == 64 && self.cur_hashy {
            for e in [ea, eb] { if self.store.n(e).sup != 0 { return Err(self.split_var(e)); } }
        }
        let e = self.store.bin(o, ea, eb);
        Ok(self.wrap(e))
    }
    fn unwrap_fix(&mut self, v: Val, w: u8) -> E {
        if v.e == 0 { return self.store.konst(w, v.v); }
        if let Some(k) = self.fixed(v.e) { let w = self.store.w(v.e); return self.store.konst(w, k); }
        v.e
    }
    fn icmp_sym(&mut self, p: Pred, w: u8, a: Val, b: Val) -> Val {
        use expr::Op;
        let (x, y) = (self.unwrap_fix(a, w), self.unwrap_fix(b, w));
        let e = match p {
            Pred::Eq => self.store.bin(Op::Eq, x, y),
            Pred::Ne => { let e = self.store.bin(Op::Eq, x, y); self.store.not(e) }
            Pred::Ult => self.store.bin(Op::Ult, x, y),
            Pred::Ule => self.store.bin(Op::Ule, x, y),
            Pred::Ugt => self.store.bin(Op::Ult, y, x),
            Pred::Uge => self.store.bin(Op::Ule, y, x),
            Pred::Slt => self.store.bin(Op::Slt, x, y),
            Pred::Sle => self.store.bin(Op::Sle, x, y),
            Pred::Sgt => self.store.bin(Op::Slt, y, x),
            Pred::Sge => self.store.bin(Op::Sle, y, x),
        };
        self.wrap(e)
    }
    fn bin_conc(op: Bop, w: u8, a: u64, b: u64) -> R<u64> {
        let m = expr::mask(w);
        Ok(match op {
            Bop::Add => a.wrapping_add(b) & m,
            Bop::Sub => a.wrapping_sub(b) & m,
            Bop::Mul => a.wrapping_mul(b) & m,
            Bop::And => a & b,
            Bop::Or => a | b,
            Bop::Xor => a ^ b,
            Bop::Shl => if b >= w as u64 { 0 } else { (a << b) & m },
            Bop::LShr => if b >= w as u64 { 0 } else { a >> b },
            Bop::AShr => { let s = if b >= w as u64 { w as u64 - 1 } else { b }; (expr::sx(a, w) >> s) as u64 & m }
            Bop::UDiv => { if b == 0 { return eng("division by zero"); } a / b }
            Bop::URem => { if b == 0 { return eng("division by zero"); } a % b }
            Bop::SDiv => { if b == 0 { return eng("division by zero"); } expr::sx(a, w).wrapping_div(expr::sx(b, w)) as u64 & m }
            Bop::SRem => { if b == 0 { return eng("division by zero"); } expr::sx(a, w).wrapping_rem(expr::sx(b, w)) as u64 & m }
        })
    }
    #[inline]
    fn icmp_conc(p: Pred, w: u8, a: u64, b: u64) -> bool {
        match p {
            Pred::Eq => a == b, Pred::Ne => a != b, Pred::Ult => a < b, Pred::Ule => a <= b, Pred::Ugt => a > b, Pred::Uge => a >= b,
            Pred::Slt => expr::sx(a, w) < expr::sx(b, w), Pred::Sle => expr::sx(a, w) <= expr::sx(b, w),
            Pred::Sgt => expr::sx(a, w) > expr::sx(b, w), Pred::Sge => expr::sx(a, w) >= expr::sx(b, w),
        }
    }

    fn panic_info(&self, f: u32, args: &[Val]) -> String {
        let mut s = String::new();
        for a in args {
            if a.e == 0 && a.v >> 32 == R_CONST {
                let o = (a.v & 0xffff_ffff) as usize;
                if o + 24 <= self.m.cdata.len() {
                    let p = Self::read_conc(&self.m.cdata, o, 8);
                    let n = Self::read_conc(&self.m.cdata, o + 8, 8);
                    let po = (p & 0xffff_ffff) as usize;
                    if p >> 32 == R_CONST && n > 3 && n < 300 && po + n as usize <= self.m.cdata.len() {
                        let file = &self.m.cdata[po..po + n as usize];
                        if file.ends_with(b".rs") {
                            s = format!("{}:{}", String::from_utf8_lossy(file), Self::read_conc(&self.m.cdata, o + 16, 4));
                        }
                    }
                }
            }
        }
        if s.is_empty() {
            // innermost frame of the library
            for fr in self.st.frames.iter().rev() {
                let n = &self.m.funcs[fr.f as usize].name;
                if n.contains("lib_ruby_parser") { s = format!("in {}", n); break; }
            }
        }
        format!("{} ({})", s, short(&self.m.funcs[f as usize].name))
    }

    /// calls to intercepted functions; Some(values) = handled
    fn special(&mut self, sp: Special, f: u32, args: &[Val]) -> R<Option<Val>> {
        Ok(Some(match sp {
            Special::None => return Ok(None),
            Special::Hole => {
                let p = self.conc(args[0])?;
                let mut d: Dom = [0; 4];
                for i in 0..4 { let v = self.load(p + 8 * i as u64, 8, 64)?; d[i] = self.conc(v)?; }
                if dom_empty(&d) { return eng("empty hole domain"); }
                let id = self.st.doms.len();
                if id >= 64 { return eng("more than 64 holes"); }
                self.st.dom0.push(d);
                if let Some(p) = self.pre.get(id) { d = dom_and(&d, p); if dom_empty(&d) { return eng("empty part of a hole domain"); } }
                self.st.doms.push(d);
                if dom_count(&d) == 1 { return Ok(Some(Val::c(dom_first(&d).unwrap() as u64))); }
                let e = self.store.var(id as u8);
                Val { v: 0, e }
            }
            Special::Assume => { if !self.branch(args[0])? { return Err(Stop::End(End::Discard)); } Val::c(0) }
            Special::Discard => return Err(Stop::End(End::Discard)),
            Special::Fail => {
                let (p, n) = (self.conc(args[0])?, self.conc(args[1])? as usize);
                let s = if n == 0 { String::new() } else if self.has_sym(p, n) { "(message depends on the input)".into() } else { String::from_utf8_lossy(self.bytes(p, n)?).into_owned() };
                return Err(Stop::End(End::Fail(s)));
            }
            Special::Emit | Special::Input => {
                let (p, n) = (self.conc(args[0])?, self.conc(args[1])? as usize);
                let mut v = Vec::with_capacity(n);
                for i in 0..n as u64 { v.push(self.load(p + i, 1, 8)?); }
                if sp == Special::Emit { self.st.emits.extend(v); } else { self.st.input = v; }
                Val::c(0)
            }
            Special::Malloc => { let n = self.conc(args[0])?; Val::c(self.malloc(n, 16)?) }
            Special::Calloc => { let n = self.conc(args[0])? * self.conc(args[1])?; Val::c(self.malloc(n, 16)?) }
            Special::Realloc => { let (p, n) = (self.conc(args[0])?, self.conc(args[1])?); Val::c(self.realloc(p, n)?) }
            Special::Free => Val::c(0),
            Special::Memalign => {
                let (pp, al, n) = (self.conc(args[0])?, self.conc(args[1])?, self.conc(args[2])?);
                let q = self.malloc(n, al)?;
                self.store(pp, Val::c(q), 8)?;
                Val::c(0)
            }
            Special::Memcmp => {
                let (a, b, n) = (self.conc(args[0])?, self.conc(args[1])?, self.conc(args[2])? as usize);
                if self.has_sym(a, n) || self.has_sym(b, n) { return Ok(None); }
                if n == 0 { return Ok(Some(Val::c(0))); }
                let r = self.bytes(a, n)?.cmp(self.bytes(b, n)?) as i32;
                Val::c(r as u32 as u64)
            }
            Special::Memchr => return Ok(None),
            Special::Strlen => {
                let p = self.conc(args[0])?;
                let mut n = 0;
                loop { let v = self.load(p + n, 1, 8)?; if self.conc(v)? == 0 { break; } n += 1; }
                Val::c(n)
            }
            Special::Getrandom => { let (p, n) = (self.conc(args[0])?, self.conc(args[1])?); for i in 0..n { self.store(p + i, Val::c(0x5a ^ i), 1)?; } Val::c(n) }
            Special::Panic => return Err(Stop::End(End::Panic(self.panic_info(f, args)))),
        }))
    }
    fn intr(&mut self, op: Intr, w: u8, x: [Val; 3]) -> R<(Val, Option<Val>)> {
        let m = expr::mask(w);
        let one = |v: u64| -> R<(Val, Option<Val>)> { Ok((Val::c(v), None)) };
        match op {
            Intr::Memcpy => { let (d, s, n) = (self.conc(x[0])?, self.conc(x[1])?, self.conc(x[2])?); self.memcpy(d, s, n as usize)?; return one(0); }
            Intr::Memset => {
                let (d, n) = (self.conc(x[0])?, self.conc(x[2])?);
                for i in 0..n { self.store(d + i, x[1], 1)?; }
                return one(0);
            }
            Intr::Ident => return Ok((x[0], None)),
            Intr::IsConst => return one(0),
            Intr::Trap => return Err(Stop::End(End::Panic(format!("trap {}", self.panic_info(self.st.frames.last().unwrap().f, &[]))))),
            Intr::LoadRel => {
                let (p, o) = (self.conc(x[0])?, self.conc(x[1])?);
                let v = self.load(p.wrapping_add(o), 4, 32)?;
                let v = self.conc(v)?;
                return one(p.wrapping_add(expr::sx(v, 32) as u64));
            }
            _ => {}
        }
        let two_args = !matches!(op, Intr::Ctlz | Intr::Cttz | Intr::Ctpop | Intr::Bswap | Intr::Bitrev | Intr::Abs);
        let symbolic = x[0].e != 0 || (two_args && x[1].e != 0) || (matches!(op, Intr::Fshl | Intr::Fshr) && x[2].e != 0);
        if symbolic {
            let a = self.unwrap_fix(x[0], w);
            use expr::Op;
            if !two_args {
                let c = match op { Intr::Ctlz => expr::F_CTLZ, Intr::Cttz => expr::F_CTTZ, Intr::Ctpop => expr::F_CTPOP, Intr::Bswap => expr::F_BSWAP, Intr::Bitrev => expr::F_BITREV, _ => expr::F_ABS };
                return match self.store.fun(c, a) { Some(e) => Ok((self.wrap(e), None)), None => Err(self.split_var(a)) };
            }
            let b = self.unwrap_fix(x[1], w);
            let s = &mut self.store;
            let (r, o) = match op {
                Intr::Umin => { let c = s.bin(Op::Ult, a, b); (s.ite(c, a, b), None) }
                Intr::Umax => { let c = s.bin(Op::Ult, a, b); (s.ite(c, b, a), None) }
                Intr::Smin => { let c = s.bin(Op::Slt, a, b); (s.ite(c, a, b), None) }
                Intr::Smax => { let c = s.bin(Op::Slt, a, b); (s.ite(c, b, a), None) }
                Intr::UsubSat => { let c = s.bin(Op::Ult, a, b); let d = s.bin(Op::Sub, a, b); let z = s.konst(w, 0); (s.ite(c, z, d), None) }
                Intr::UaddSat => { let d = s.bin(Op::Add, a, b); let c = s.bin(Op::Ult, d, a); let z = s.konst(w, m); (s.ite(c, z, d), None) }
                Intr::UaddOv => { let d = s.bin(Op::Add, a, b); (d, Some(s.bin(Op::Ult, d, a))) }
                Intr::UsubOv => { let d = s.bin(Op::Sub, a, b); (d, Some(s.bin(Op::Ult, a, b))) }
                Intr::Scmp | Intr::Ucmp => {
                    let lt = s.bin(if op == Intr::Scmp { Op::Slt } else { Op::Ult }, a, b);
                    let eq = s.bin(Op::Eq, a, b);
                    let (k1, k0, km) = (s.konst(8, 1), s.konst(8, 0), s.konst(8, 0xff));
                    let r = s.ite(eq, k0, k1);
                    (s.ite(lt, km, r), None)
                }
                Intr::SaddOv | Intr::SsubOv if w <= 32 => {
                    let (wa, wb) = (s.sext(a, 2 * w), s.sext(b, 2 * w));
                    let r = s.bin(if op == Intr::SaddOv { Op::Add } else { Op::Sub }, wa, wb);
                    let lo = s.extract(r, 0, w);
                    let back = s.sext(lo, 2 * w);
                    let eq = s.bin(Op::Eq, back, r);
                    (lo, Some(s.not(eq)))
                }
                Intr::UmulOv if w <= 32 => {
                    let (wa, wb) = (s.zext(a, 2 * w), s.zext(b, 2 * w));
                    let r = s.bin(Op::Mul, wa, wb);
                    let lo = s.extract(r, 0, w);
                    let k = s.konst(2 * w, m);
                    (lo, Some(s.bin(Op::Ult, k, r)))
                }
                Intr::UmulOv if s.as_const(b).is_some() && s.as_const(b) != Some(0) => {
                    let k = s.as_const(b).unwrap();
                    let r = s.bin(Op::Mul, a, b);
                    let lim = s.konst(w, m / k);
                    (r, Some(s.bin(Op::Ult, lim, a)))
                }
                Intr::Fshl | Intr::Fshr => {
                    let k = match self.conc(x[2]) { Ok(k) => k, Err(e) => return Err(e) };
                    let s = &mut self.store;
                    let k = k % w as u64;
                    if k == 0 { (if op == Intr::Fshl { a } else { b }, None) } else {
                        let (l, r) = if op == Intr::Fshl { (k, w as u64 - k) } else { (w as u64 - k, k) };
                        let (kl, kr) = (s.konst(w, l), s.konst(w, r));
                        let (p, q) = (s.bin(Op::Shl, a, kl), s.bin(Op::LShr, b, kr));
                        (s.bin(Op::Or, p, q), None)
                    }
                }
                _ => { if self.store.n(a).sup != 0 { return Err(self.split_var(a)); } return Err(self.split_var(b)); }
            };
            let rv = self.wrap(r);
            let ov = o.map(|o| self.wrap(o));
            return Ok((rv, ov));
        }
        let (a, b) = (x[0].v, x[1].v);
        let (sa, sb) = (expr::sx(a, w), expr::sx(b, w));
        Ok(match op {
            Intr::Umin => (Val::c(a.min(b)), None), Intr::Umax => (Val::c(a.max(b)), None),
            Intr::Smin => (Val::c(if sa < sb { a } else { b }), None), Intr::Smax => (Val::c(if sa > sb { a } else { b }), None),
            Intr::UsubSat => (Val::c(a.saturating_sub(b)), None),
            Intr::UaddSat => { let r = a as u128 + b as u128; (Val::c(if r > m as u128 { m } else { r as u64 }), None) }
            Intr::UaddOv => { let r = a as u128 + b as u128; (Val::c(r as u64 & m), Some(Val::c((r > m as u128) as u64))) }
            Intr::UsubOv => (Val::c(a.wrapping_sub(b) & m), Some(Val::c((a < b) as u64))),
            Intr::UmulOv => { let r = a as u128 * b as u128; (Val::c(r as u64 & m), Some(Val::c((r > m as u128) as u64))) }
            Intr::SaddOv | Intr::SsubOv | Intr::SmulOv => {
                let r = match op { Intr::SaddOv => sa as i128 + sb as i128, Intr::SsubOv => sa as i128 - sb as i128, _ => sa as i128 * sb as i128 };
                let v = r as u64 & m;
                (Val::c(v), Some(Val::c((expr::sx(v, w) as i128 != r) as u64)))
            }
            Intr::Fshl => { let k = x[2].v % w as u64; (Val::c(if k == 0 { a } else { ((a << k) | (b >> (w as u64 - k))) & m }), None) }
            Intr::Fshr => { let k = x[2].v % w as u64; (Val::c(if k == 0 { b } else { ((a << (w as u64 - k)) | (b >> k)) & m }), None) }
            Intr::Ctlz => (Val::c(expr::fun1(expr::F_CTLZ, w, a)), None), Intr::Cttz => (Val::c(expr::fun1(expr::F_CTTZ, w, a)), None),
            Intr::Ctpop => (Val::c(expr::fun1(expr::F_CTPOP, w, a)), None), Intr::Bswap => (Val::c(expr::fun1(expr::F_BSWAP, w, a)), None),
            Intr::Bitrev => (Val::c(expr::fun1(expr::F_BITREV, w, a)), None), Intr::Abs => (Val::c(expr::fun1(expr::F_ABS, w, a)), None),
            Intr::Scmp => (Val::c(sa.cmp(&sb) as i8 as u8 as u64), None), Intr::Ucmp => (Val::c(a.cmp(&b) as i8 as u8 as u64), None),
            _ => return eng(format!("intrinsic {:?}", op)),
        })
    }

    fn take_state(&mut self) -> State { self.pool.pop().unwrap_or_default() }
    fn apply(st: &mut State, store: &Store, c: &Cstr) {
        match c {
            Cstr::Dom(v, d) => { let o = st.doms[*v as usize]; st.doms[*v as usize] = dom_and(&o, d); }
            Cstr::Rel(e, p) => { st.rel.push((*e, *p)); st.relsup |= store.n(*e).sup; }
        }
    }
    /// take one alternative now, leave the others pending. The instruction is re-executed.
    fn do_split(&mut self, alts: Vec<Cstr>) {
        self.splits += 1;
        if self.profile { *self.forks_by_func.entry(self.st.frames.last().unwrap().f).or_insert(0) += 1; }
        let mut s = self.take_state();
        s.copy_from(&self.st);
        Self::apply(&mut self.st, &self.store, &alts[0]);
        let hi = alts.len();
        self.pending.push(Pend { st: s, alts, lo: 1, hi });
    }
    /// continue with a pending state
    pub fn resume(&mut self) -> bool {
        let mut p = match self.pending.pop() { Some(p) => p, None => return false };
        let i = p.lo;
        if p.lo + 1 < p.hi {
            let mut s = self.take_state();
            s.copy_from(&p.st);
            p.lo += 1;
            Self::apply(&mut s, &self.store, &p.alts[i]);
            self.pending.push(p);
            let old = std::mem::replace(&mut self.st, s);
            self.pool.push(old);
        } else {
            let mut s = p.st;
            Self::apply(&mut s, &self.store, &p.alts[i]);
            let old = std::mem::replace(&mut self.st, s);
            self.pool.push(old);
        }
        true
    }
    /// Give away the oldest unexplored alternative that is described by hole domains alone: whoever takes it
    /// starts the case again with these domains, which decide every branch up to this point the same way.
    pub fn donate(&mut self) -> Option<Vec<Dom>> {
        let k = self.pending.iter().position(|p| p.st.rel.is_empty() && matches!(p.alts[p.hi - 1], Cstr::Dom(..)))?;
        let p = &mut self.pending[k];
        p.hi -= 1;
        let mut t = p.st.doms.clone();
        if let Cstr::Dom(v, d) = &p.alts[p.hi] { t[*v as usize] = dom_and(&t[*v as usize], d); }
        if p.lo == p.hi { let p = self.pending.remove(k); self.pool.push(p.st); }
        Some(t)
    }
    /// run a concrete function and return its value
    pub fn run_value(&mut self) -> Result<u64, End> {
        self.retval = Val::default();
        match self.run() { End::Return => Ok(self.retval.v), e => Err(e) }
    }
    /// run the current state to its end
    pub fn run(&mut self) -> End {
        loop {
            match self.run_inner() {
                Ok(()) => return End::Return,
                Err(Stop::End(e)) => return e,
                Err(Stop::Split(alts)) => {
                    if alts.len() < 2 {
                        if alts.is_empty() { return End::Engine("empty split".into()); }
                        Self::apply(&mut self.st, &self.store, &alts[0]);
                    } else { self.do_split(alts); }
                }
            }
        }
    }

    fn run_inner(&mut self) -> R<()> {
        'frame: loop {
            let fr = match self.st.frames.last() { Some(f) => *f, None => return Ok(()) };
            let code: &Code = self.m.code(fr.f);
            let code: &'m Code = unsafe { std::mem::transmute(code) };
            let insts = &code.code[..];
            self.cur_hashy = code.hashy;
            let consts = &code.consts[..];
            let base = fr.base as usize;
            let regs: *mut Val = unsafe { self.st.regs.as_mut_ptr().add(base) };
            let mut pc = fr.pc as usize;
            let mut steps = 0u64;
            macro_rules! g { ($o:expr) => { get!(self, regs, consts, $o) } }
            macro_rules! set { ($d:expr, $v:expr) => { unsafe { *regs.add($d as usize) = $v } } }
            macro_rules! save { () => {{ self.st.frames.last_mut().unwrap().pc = pc as u32; self.st.steps += steps; self.total_steps += steps; }} }
            macro_rules! tri { ($e:expr) => { match $e { Ok(v) => v, Err(s) => { save!(); return Err(s); } } } }
            macro_rules! jump { ($e:expr) => {{
                let e: Edge = $e;
                if e.ncp > 0 {
                    let cps = &code.copies[e.cp as usize..(e.cp + e.ncp) as usize];
                    if !e.par { for (d, s) in cps { let v = g!(*s); set!(*d, v); } }
                    else {
                        let mut tmp: [Val; 64] = [Val::default(); 64];
                        if cps.len() <= 64 {
                            for (i, (_, s)) in cps.iter().enumerate() { tmp[i] = g!(*s); }
                            for (i, (d, _)) in cps.iter().enumerate() { set!(*d, tmp[i]); }
                        } else {
                            let v: Vec<Val> = cps.iter().map(|(_, s)| g!(*s)).collect();
                            for (i, (d, _)) in cps.iter().enumerate() { set!(*d, v[i]); }
                        }
                    }
                }
                pc = e.pc as usize;
            }} }
            if self.st.steps > self.max_steps { return Err(Stop::End(End::Steps)); }
            loop {
                steps += 1;
                match unsafe { insts.get_unchecked(pc) } {
                    I::Bin { op, w, d, a, b } => {
                        let (x, y) = (g!(*a), g!(*b));
                        if x.e | y.e == 0 { let r = tri!(Self::bin_conc(*op, *w, x.v, y.v)); set!(*d, Val::c(r)); }
                        else { let r = tri!(self.bin_sym(*op, *w, x, y)); set!(*d, r); }
                        pc += 1;
                    }
                    I::Icmp { p, w, d, a, b } => {
                        let (x, y) = (g!(*a), g!(*b));
                        if x.e | y.e == 0 { set!(*d, Val::c(Self::icmp_conc(*p, *w, x.v, y.v) as u64)); }
                        else { let r = self.icmp_sym(*p, *w, x, y); set!(*d, r); }
                        pc += 1;
                    }
                    I::Load { d, a, n, w, off } => {
                        let x = g!(*a);
                        if x.e == 0 {
                            let addr = x.v.wrapping_add(*off as u64);
                            let r = tri!(self.load(addr, *n as usize, *w));
                            set!(*d, r);
                        } else {
                            let r = tri!(self.sym_load(x, *off as u64, *n as usize, *w));
                            set!(*d, r);
                        }
                        pc += 1;
                    }
                    I::Store { v, a, n, off } => {
                        let x = g!(*a);
                        let val = g!(*v);
                        let addr = if x.e == 0 { x.v } else { tri!(self.conc(x)) };
                        tri!(self.store(addr.wrapping_add(*off as u64), val, *n as usize));
                        pc += 1;
                    }
                    I::AddK { d, a, k } => {
                        let x = g!(*a);
                        if x.e == 0 { set!(*d, Val::c(x.v.wrapping_add(*k))); }
                        else { let r = tri!(self.bin_sym(Bop::Add, 64, x, Val::c(*k))); set!(*d, r); }
                        pc += 1;
                    }
                    I::Gep { d, a, i, iw, scale } => {
                        let (x, y) = (g!(*a), g!(*i));
                        if x.e | y.e == 0 { set!(*d, Val::c(x.v.wrapping_add((expr::sx(y.v, *iw) as u64).wrapping_mul(*scale)))); }
                        else {
                            let mut iv = y;
                            if *iw < 64 { if y.e == 0 { iv = Val::c(expr::sx(y.v, *iw) as u64); } else { let e = self.store.sext(y.e, 64); iv = self.wrap(e); } }
                            let p = if iv.e == 0 { Val::c(iv.v.wrapping_mul(*scale)) } else { tri!(self.bin_sym(Bop::Mul, 64, iv, Val::c(*scale))) };
                            let r = tri!(self.bin_sym(Bop::Add, 64, x, p));
                            set!(*d, r);
                        }
                        pc += 1;
                    }
                    I::Br(e) => jump!(*e),
                    I::CondBr { c, t, f } => {
                        let x = g!(*c);
                        let b = if x.e == 0 { x.v & 1 != 0 } else { tri!(self.branch(x)) };
                        if b { jump!(*t) } else { jump!(*f) }
                        if steps > 1_000_000 { save!(); if self.st.steps > self.max_steps { return Err(Stop::End(End::Steps)); } steps = 0; }
                    }
                    I::Copy { d, a } => { let x = g!(*a); set!(*d, x); pc += 1; }
                    I::Select { d, c, a, b } => {
                        let x = g!(*c);
                        let (p, q) = (g!(*a), g!(*b));
                        if x.e == 0 { set!(*d, if x.v & 1 != 0 { p } else { q }); }
                        else {
                            match self.decide(x.e) {
                                Dec::T => set!(*d, p),
                                Dec::F => set!(*d, q),
                                Dec::Split(s) => {
                                    // widths: from symbolic arms, or 64
                                    let w = if p.e != 0 { self.store.w(p.e) } else if q.e != 0 { self.store.w(q.e) } else { 0 };
                                    let _ = s;
                                    if w == 0 {
                                        if p.v == q.v { set!(*d, p); }
                                        else {
                                            // both arms concrete: width is unknown here; 64-bit values only need
                                            // consistent truncation, so find the width from the instruction's users
                                            let w = self.sel_width(code, pc);
                                            let (ep, eq) = (self.store.konst(w, p.v), self.store.konst(w, q.v));
                                            let e = self.store.ite(x.e, ep, eq);
                                            let r = self.wrap(e);
                                            set!(*d, r);
                                        }
                                    } else {
                                        let (ep, eq) = (self.unwrap(p, w), self.unwrap(q, w));
                                        let e = self.store.ite(x.e, ep, eq);
                                        let r = self.wrap(e);
                                        set!(*d, r);
                                    }
                                }
                            }
                        }
                        pc += 1;
                    }
                    I::Zext { d, a, fw: _, w } => {
                        let x = g!(*a);
                        if x.e == 0 { set!(*d, x); } else { let e = self.store.zext(x.e, *w); let r = self.wrap(e); set!(*d, r); }
                        pc += 1;
                    }
                    I::Sext { d, a, fw, w } => {
                        let x = g!(*a);
                        if x.e == 0 { set!(*d, Val::c(expr::sx(x.v, *fw) as u64 & expr::mask(*w))); } else { let e = self.store.sext(x.e, *w); let r = self.wrap(e); set!(*d, r); }
                        pc += 1;
                    }
                    I::Trunc { d, a, w } => {
                        let x = g!(*a);
                        if x.e == 0 { set!(*d, Val::c(x.v & expr::mask(*w))); } else { let e = self.store.extract(x.e, 0, *w); let r = self.wrap(e); set!(*d, r); }
                        pc += 1;
                    }
                    I::Switch { v, w: _, idx, def } => {
                        let x = g!(*v);
                        let sw = &code.switches[*idx as usize];
                        let look = |k: u64| -> u32 {
                            match &sw.dense { Some((lo, t)) => { let i = k.wrapping_sub(*lo); if i < t.len() as u64 { t[i as usize] } else { u32::MAX } } None => sw.map.get(&k).copied().unwrap_or(u32::MAX) }
                        };
                        let ci;
                        if x.e == 0 { ci = look(x.v); }
                        else if let Some(k) = self.fixed(x.e) { ci = look(k); }
                        else if self.store.n(x.e).sup.is_power_of_two() {
                            let tgt = |k: u64| -> u32 { let i = look(k); if i == u32::MAX { def.pc } else { sw.cases[i as usize].1.pc } };
                            // group by case when phi copies differ, else by target block
                            let (var, gr) = self.groups(x.e, |k| { let i = look(k); let e = if i == u32::MAX { *def } else { sw.cases[i as usize].1 }; if e.ncp == 0 { (tgt(k), 0) } else { (e.pc, i + 1) } });
                            if gr.len() == 1 {
                                // all values lead to the same place; any representative will do
                                let d = gr[0].1;
                                let rep = dom_first(&d).unwrap();
                                let t = self.store.n(x.e).tab;
                                ci = look(self.store.tabs[t as usize].v[rep as usize]);
                            } else { let alts = gr.into_iter().map(|(_, d)| Cstr::Dom(var, d)).collect(); save!(); return Err(Stop::Split(alts)); }
                        } else {
                            let mut found = u32::MAX;
                            let w = self.store.w(x.e);
                            for (i, (k, _)) in sw.cases.iter().enumerate() {
                                let kk = self.store.konst(w, *k);
                                let e = self.store.bin(expr::Op::Eq, x.e, kk);
                                let b = if let Some(c) = self.store.as_const(e) { c != 0 } else { tri!(self.branch(Val { v: 0, e })) };
                                if b { found = i as u32; break; }
                            }
                            ci = found;
                        }
                        if ci == u32::MAX { jump!(*def) } else { jump!(sw.cases[ci as usize].1) }
                    }
                    I::Call { idx } => {
                        let cs = &code.calls[*idx as usize];
                        let f = match cs.target {
                            Some(f) => f,
                            None => {
                                let p = g!(cs.fptr);
                                let p = tri!(self.conc(p));
                                if p >> 32 != R_FUNC { save!(); return eng(format!("call of bad function pointer {:#x}", p)); }
                                ((p & 0xffff_ffff) / 16 - 1) as u32
                            }
                        };
                        let mut buf = [Val::default(); 32];
                        let n = cs.args.len();
                        if n > 32 { save!(); return eng("too many arguments"); }
                        for i in 0..n { buf[i] = g!(cs.args[i]); }
                        let fun = &self.m.funcs[f as usize];
                        let mut callee = f;
                        if fun.special != Special::None {
                            match tri!(self.special(fun.special, f, &buf[..n])) {
                                Some(v) => {
                                    if cs.nret > 0 { set!(cs.d, v); }
                                    match cs.cont { Some(e) => jump!(e), None => pc += 1 }
                                    continue;
                                }
                                None => { callee = if fun.special == Special::Memcmp { self.memcmp_f } else { self.memchr_f }; }
                            }
                        } else if fun.body.1 == 0 { save!(); return eng(format!("call of external function {}", fun.name)); }
                        pc += 1;
                        save!();
                        if self.st.frames.len() > 3000 { return eng("call depth"); }
                        self.push_frame(callee, &buf[..n], cs.d, if cs.cont.is_some() { *idx + 1 } else { 0 });
                        continue 'frame;
                    }
                    I::Ret { a, n, .. } => {
                        let n = *n as usize;
                        let mut buf = [Val::default(); 64];
                        for i in 0..n.min(64) { buf[i] = g!(*a + i as u32); }
                        save!();
                        let fr = self.st.frames.pop().unwrap();
                        self.st.regs.truncate(fr.base as usize);
                        self.st.sp = fr.sp;
                        if let Some(p) = self.st.frames.last() {
                            let pb = p.base as usize + fr.d as usize;
                            for i in 0..n { self.st.regs[pb + i] = buf[i]; }
                            if fr.cont != 0 {
                                // invoke: follow the normal edge
                                let pf = *p;
                                let pcode: &Code = self.m.code(pf.f);
                                let e = pcode.calls[fr.cont as usize - 1].cont.unwrap();
                                let vals: Vec<(u32, Val)> = pcode.copies[e.cp as usize..(e.cp + e.ncp) as usize].iter().map(|(d, s)| (*d, if s & K != 0 { Val::c(pcode.consts[(s & !K) as usize]) } else { self.st.regs[(pf.base + s) as usize] })).collect();
                                for (d, v) in vals { self.st.regs[(pf.base + d) as usize] = v; }
                                self.st.frames.last_mut().unwrap().pc = e.pc;
                            }
                        } else if n > 0 { self.retval = buf[0]; }
                        continue 'frame;
                    }
                    I::Intr { op, w, d, args } => {
                        let x = [g!(args[0]), g!(args[1]), g!(args[2])];
                        let (r, o) = tri!(self.intr(*op, *w, x));
                        if !matches!(op, Intr::Memcpy | Intr::Memset) { set!(*d, r); if let Some(o) = o { set!(*d + 1, o); } }
                        pc += 1;
                    }
                    I::VecIcmp { p, w, n, d, a, b } => {
                        for i in 0..*n as u32 {
                            let (x, y) = (g!(*a + i), g!(*b + i));
                            let r = if x.e | y.e == 0 { Val::c(Self::icmp_conc(*p, *w, x.v, y.v) as u64) } else { self.icmp_sym(*p, *w, x, y) };
                            set!(*d + i, r);
                        }
                        pc += 1;
                    }
                    I::PackBits { d, a, n } => {
                        let mut r = 0u64;
                        for i in 0..*n as u32 { let x = g!(*a + i); let v = tri!(self.branch(x)); r |= (v as u64) << i; }
                        set!(*d, Val::c(r));
                        pc += 1;
                    }
                    I::AtomicRmw { op, d, a, v, n, w } => {
                        let p = tri!(self.conc(g!(*a)));
                        let old = tri!(self.load(p, *n as usize, *w));
                        let x = g!(*v);
                        let nv = match op {
                            0 => x,
                            1 => Val::c(old.v.wrapping_add(x.v) & expr::mask(*w)),
                            2 => Val::c(old.v.wrapping_sub(x.v) & expr::mask(*w)),
                            3 => Val::c(old.v & x.v), 4 => Val::c(old.v | x.v), 5 => Val::c(old.v ^ x.v),
                            _ => { save!(); return eng("atomicrmw"); }
                        };
                        if *op != 0 && (old.e | x.e) != 0 { save!(); return eng("symbolic atomicrmw"); }
                        tri!(self.store(p, nv, *n as usize));
                        set!(*d, old);
                        pc += 1;
                    }
                    I::CmpXchg { d, a, c, v, n, w } => {
                        let p = tri!(self.conc(g!(*a)));
                        let old = tri!(self.load(p, *n as usize, *w));
                        let x = g!(*c);
                        if (old.e | x.e) != 0 { save!(); return eng("symbolic cmpxchg"); }
                        let ok = old.v == x.v;
                        if ok { let nv = g!(*v); tri!(self.store(p, nv, *n as usize)); }
                        set!(*d, old);
                        set!(*d + 1, Val::c(ok as u64));
                        pc += 1;
                    }
                    I::AllocaDyn { d, n, sz } => {
                        let k = tri!(self.conc(g!(*n)));
                        let p = (self.st.sp + 15) / 16 * 16;
                        self.st.sp = p + k * sz;
                        let need = (self.st.sp as usize + 63) / 64 * 64 + 64;
                        if self.st.stack.data.len() < need { self.st.stack.data.resize(need, 0); self.st.stack.flags.resize(need / 64, 0); }
                        set!(*d, Val::c(R_STACK << 32 | p));
                        pc += 1;
                    }
                    I::Unreachable => { save!(); let s = self.panic_info(fr.f, &[]); return Err(Stop::End(End::Panic(format!("unreachable code reached: {}", s)))); }
                    I::Unsupported { what } => { save!(); return eng(format!("unsupported: {} in {}", code.unsupported[*what as usize], self.m.funcs[fr.f as usize].name)); }
                }
            }
        }
    }
    /// width of a select whose arms are both concrete: search for a user of its result in the code
    fn sel_width(&self, code: &Code, pc: usize) -> u8 {
        code.selw.get(&(pc as u32)).copied().unwrap_or(64)
    }
}
pub fn short(n: &str) -> String {
    // crude demangling of v0 symbols: keep path-like identifiers
    let mut out: Vec<String> = vec![];
    let b = n.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() { j += 1; }
            if let Ok(l) = n[i..j].parse::<usize>() {
                let st = if j < b.len() && b[j] == b'_' { j + 1 } else { j };
                if st + l <= b.len() && l > 1 && n.is_char_boundary(st + l) && n[st..st + l].bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && !n[st..st + l].as_bytes()[0].is_ascii_digit() {
                    out.push(n[st..st + l].to_string());
                    i = st + l;
                    continue;
                }
            }
            i = j;
        } else { i += 1; }
    }
    if out.is_empty() { n.to_string() } else { out.join("::") }
}
