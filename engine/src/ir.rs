//! LLVM textual IR -> compact code. Functions are compiled lazily on first call.
use std::collections::HashMap;
use std::sync::OnceLock;

pub const R_CONST: u64 = 1;
pub const R_MUT: u64 = 2;
pub const R_STACK: u64 = 3;
pub const R_HEAP: u64 = 4;
pub const R_FUNC: u64 = 5;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, Float, Double, Arr(u64, Box<Ty>), Struct(Vec<Ty>, bool), Vec(u64, Box<Ty>), Meta, Label }

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta | Ty::Label => 0,
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; b.next_power_of_two() }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t { Ty::Int(1) => (n + 7) / 8, _ => n * t.size() },
            Ty::Struct(v, packed) => {
                let mut o = 0;
                for t in v { if !packed { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); }
                if !packed { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(v, packed) => if *packed { 1 } else { v.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Int(w) => ((*w as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Vec(..) => self.size().min(16),
            _ => self.size().max(1),
        }
    }
    /// scalar lanes: (width, byte offset)
    pub fn lanes(&self) -> Vec<(u8, u64)> {
        let mut v = vec![];
        self.lanes_at(0, &mut v);
        v
    }
    fn lanes_at(&self, off: u64, out: &mut Vec<(u8, u64)>) {
        match self {
            Ty::Int(w) if *w <= 64 => out.push((*w as u8, off)),
            Ty::Int(128) => { out.push((64, off)); out.push((64, off + 8)); }
            Ty::Ptr | Ty::Double => out.push((64, off)),
            Ty::Float => out.push((32, off)),
            Ty::Arr(n, t) | Ty::Vec(n, t) => for i in 0..*n { t.lanes_at(off + i * t.size(), out) },
            Ty::Struct(v, packed) => {
                let mut o = 0;
                for t in v { if !packed { let a = t.align(); o = (o + a - 1) / a * a; } t.lanes_at(off + o, out); o += t.size(); }
            }
            _ => {}
        }
    }
    pub fn nlanes(&self) -> u32 {
        match self {
            Ty::Int(w) if *w <= 64 => 1,
            Ty::Int(128) => 2,
            Ty::Ptr | Ty::Double | Ty::Float => 1,
            Ty::Arr(n, t) | Ty::Vec(n, t) => *n as u32 * t.nlanes(),
            Ty::Struct(v, _) => v.iter().map(|t| t.nlanes()).sum(),
            _ => 0,
        }
    }
}

pub type Opd = u32; // high bit: constant index; otherwise slot
pub const K: u32 = 1 << 31;

#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(u8)]
pub enum Bop { Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(u8)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(u8)]
pub enum Intr {
    Memcpy, Memset, Umin, Umax, Smin, Smax, UsubSat, UaddSat, UmulOv, SmulOv, UaddOv, SaddOv, UsubOv, SsubOv, Fshl, Fshr,
    Ctlz, Cttz, Ctpop, Bswap, Bitrev, Abs, Scmp, Ucmp, Nop, Ident, IsConst, LoadRel, Trap, ReduceAdd, Unsupported,
}
#[derive(Clone, Copy, Debug)]
pub struct Edge { pub pc: u32, pub cp: u32, pub ncp: u32, pub par: bool }

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: Bop, w: u8, d: u32, a: Opd, b: Opd },
    Icmp { p: Pred, w: u8, d: u32, a: Opd, b: Opd },
    Select { d: u32, c: Opd, a: Opd, b: Opd },
    Zext { d: u32, a: Opd, fw: u8, w: u8 },
    Sext { d: u32, a: Opd, fw: u8, w: u8 },
    Trunc { d: u32, a: Opd, w: u8 },
    Copy { d: u32, a: Opd },
    AddK { d: u32, a: Opd, k: u64 },               // gep with constant offset
    Gep { d: u32, a: Opd, i: Opd, iw: u8, scale: u64 }, // a + sext(i)*scale
    Load { d: u32, a: Opd, n: u8, w: u8, off: u32 },
    Store { v: Opd, a: Opd, n: u8, off: u32 },
    Br(Edge),
    CondBr { c: Opd, t: Edge, f: Edge },
    Switch { v: Opd, w: u8, idx: u32, def: Edge },
    Call { idx: u32 },
    Ret { a: Opd, n: u8, lst: u32 },
    Intr { op: Intr, w: u8, d: u32, args: [Opd; 3] },
    VecIcmp { p: Pred, w: u8, n: u8, d: u32, a: Opd, b: Opd },
    PackBits { d: u32, a: Opd, n: u8 },            // <n x i1> -> iN
    AtomicRmw { op: u8, d: u32, a: Opd, v: Opd, n: u8, w: u8 },
    CmpXchg { d: u32, a: Opd, c: Opd, v: Opd, n: u8, w: u8 },
    AllocaDyn { d: u32, n: Opd, sz: u64 },
    Unreachable,
    Unsupported { what: u32 },
}
pub struct CallSite { pub target: Option<u32>, pub fptr: Opd, pub args: Vec<Opd>, pub d: u32, pub nret: u32, pub cont: Option<Edge> }
pub struct SwitchT { pub cases: Vec<(u64, Edge)>, pub map: HashMap<u64, u32>, pub dense: Option<(u64, Vec<u32>)> }

pub struct Code {
    pub code: Vec<I>,
    pub consts: Vec<u64>,
    pub copies: Vec<(u32, Opd)>,
    pub calls: Vec<CallSite>,
    pub switches: Vec<SwitchT>,
    pub lists: Vec<Opd>,
    pub nslots: u32,
    pub nparams: u32,
    pub alloca_size: u64,
    pub allocas: Vec<(u32, u64)>, // slot, offset
    pub unsupported: Vec<String>,
    pub selw: HashMap<u32, u8>, // width of select instructions by pc
    pub hashy: bool, // contains SipHash's initial state constants
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Special {
    None, Hole, Assume, Discard, Fail, Emit, Input, Malloc, Calloc, Realloc, Free, Memalign, Memcmp, Memchr, Strlen, Getrandom, Panic,
}
pub struct Func {
    pub name: String,
    pub body: (usize, usize), // text range, (0,0) = declaration
    pub special: Special,
    pub code: OnceLock<Box<Code>>,
    pub used: std::sync::atomic::AtomicBool,
}
pub struct Module {
    pub text: &'static str,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<&'static str, u32>,
    pub gaddr: HashMap<&'static str, u64>,
    pub cdata: Vec<u8>,
    pub mdata: Vec<u8>,
}

// ---- lexing ------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub enum T<'a> { Word(&'a str), Local(&'a str), Global(&'a str), Meta, Attr(u32), Str(&'a str), P(u8), Num(&'a str) }

pub fn lex<'a>(s: &'a str, out: &mut Vec<T<'a>>) {
    out.clear();
    let b = s.as_bytes();
    let mut i = 0;
    let isw = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\n' | b'\t' | b'\r' => i += 1,
            b';' => { while i < b.len() && b[i] != b'\n' { i += 1; } }
            b'%' | b'@' => {
                let st;
                let en;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    st = i + 2;
                    let mut j = st;
                    while b[j] != b'"' { j += 1; }
                    en = j;
                    i = j + 1;
                } else {
                    st = i + 1;
                    let mut j = st;
                    while j < b.len() && isw(b[j]) { j += 1; }
                    en = j;
                    i = j;
                }
                out.push(if c == b'%' { T::Local(&s[st..en]) } else { T::Global(&s[st..en]) });
            }
            b'!' => {
                i += 1;
                while i < b.len() && isw(b[i]) { i += 1; }
                out.push(T::Meta);
            }
            b'#' => {
                let st = i + 1;
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() { i += 1; }
                out.push(T::Attr(s[st..i].parse().unwrap_or(u32::MAX)));
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' { j += 1; }
                out.push(T::Str(&s[st..j]));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                let mut j = st;
                while b[j] != b'"' { j += 1; }
                out.push(T::Word("c"));
                out.push(T::Str(&s[st..j]));
                i = j + 1;
            }
            _ if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) => {
                let st = i;
                i += 1;
                while i < b.len() && isw(b[i]) { i += 1; }
                out.push(T::Num(&s[st..i]));
            }
            _ if isw(c) => {
                let st = i;
                while i < b.len() && isw(b[i]) { i += 1; }
                out.push(T::Word(&s[st..i]));
            }
            _ => { out.push(T::P(c)); i += 1; }
        }
    }
}

pub struct Cur<'t, 'a> { pub t: &'t [T<'a>], pub i: usize }
impl<'t, 'a> Cur<'t, 'a> {
    fn peek(&self) -> Option<&T<'a>> { self.t.get(self.i) }
    fn next(&mut self) -> T<'a> { let x = self.t.get(self.i).cloned().unwrap_or(T::P(0)); self.i += 1; x }
    fn p(&mut self, c: u8) -> bool { if self.peek() == Some(&T::P(c)) { self.i += 1; true } else { false } }
    fn exp(&mut self, c: u8) { if !self.p(c) { panic!("expected {:?} at {:?}", c as char, &self.t[self.i.saturating_sub(4)..(self.i + 4).min(self.t.len())]); } }
    fn w(&mut self, s: &str) -> bool { if let Some(T::Word(x)) = self.peek() { if *x == s { self.i += 1; return true; } } false }
    fn is_ty(&self) -> bool {
        match self.peek() {
            Some(T::Word(w)) => is_ty_word(w),
            Some(T::P(b'{')) | Some(T::P(b'[')) | Some(T::P(b'<')) => true,
            _ => false,
        }
    }
    fn skip_parens(&mut self) {
        let mut d = 0;
        loop {
            match self.next() {
                T::P(b'(') => d += 1,
                T::P(b')') => { d -= 1; if d == 0 { return; } }
                T::P(0) => return,
                _ => {}
            }
        }
    }
    /// skip attribute words until a type starts
    fn to_ty(&mut self) {
        while !self.is_ty() {
            match self.next() {
                T::P(0) => return,
                T::Word("align") => { if let Some(T::Num(_)) = self.peek() { self.i += 1; } }
                _ => {}
            }
            if self.peek() == Some(&T::P(b'(')) { self.skip_parens(); }
        }
    }
    fn ty(&mut self) -> Ty {
        let t = match self.next() {
            T::Word("void") => Ty::Void,
            T::Word("ptr") => Ty::Ptr,
            T::Word("float") => Ty::Float,
            T::Word("double") => Ty::Double,
            T::Word("metadata") => Ty::Meta,
            T::Word("label") => Ty::Label,
            T::Word(w) if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {}", w))),
            T::P(b'{') => { let v = self.tylist(b'}'); Ty::Struct(v, false) }
            T::P(b'[') => { let n = self.num(); assert!(self.w("x")); let e = self.ty(); self.exp(b']'); Ty::Arr(n, Box::new(e)) }
            T::P(b'<') => {
                if self.p(b'{') { let v = self.tylist(b'}'); self.exp(b'>'); Ty::Struct(v, true) }
                else { let n = self.num(); assert!(self.w("x")); let e = self.ty(); self.exp(b'>'); Ty::Vec(n, Box::new(e)) }
            }
            x => panic!("type expected, got {:?} in {:?}", x, &self.t[self.i.saturating_sub(5)..(self.i + 5).min(self.t.len())]),
        };
        t
    }
    fn tylist(&mut self, end: u8) -> Vec<Ty> {
        let mut v = vec![];
        if self.p(end) { return v; }
        loop {
            v.push(self.ty());
            if self.p(end) { return v; }
            self.exp(b',');
        }
    }
    fn num(&mut self) -> u64 { match self.next() { T::Num(s) => s.parse().unwrap(), x => panic!("num {:?}", x) } }
}
fn is_ty_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "float" | "double" | "metadata" | "label")
        || (w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit()))
}
fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' { v.push(b'\\'); i += 2; continue; }
            v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else { v.push(b[i]); i += 1; }
    }
    v
}

#[derive(Debug)]
pub enum Cv { Scalars(Vec<u64>) }

impl Module {
    /// parse a constant of the given type -> scalar lanes (in lane order)
    fn constant(&self, c: &mut Cur, ty: &Ty) -> Vec<u64> {
        match c.next() {
            T::Num(s) => {
                if let Ty::Int(128) = ty {
                    let v: i128 = s.parse::<i128>().unwrap_or_else(|_| s.parse::<u128>().unwrap() as i128);
                    return vec![v as u64, (v >> 64) as u64];
                }
                if matches!(ty, Ty::Float | Ty::Double) { return vec![0]; }
                let v: i128 = s.parse().unwrap_or_else(|_| panic!("num {}", s));
                let m = match ty { Ty::Int(w) if *w < 64 => (1u64 << w) - 1, _ => !0 };
                vec![v as u64 & m]
            }
            T::Word("true") => vec![1],
            T::Word("false") => vec![0],
            T::Word("null") | T::Word("none") => vec![0],
            T::Word("undef") | T::Word("poison") | T::Word("zeroinitializer") => vec![0; ty.nlanes() as usize],
            T::Word("c") => match c.next() { T::Str(s) => unescape(s).into_iter().map(|b| b as u64).collect(), x => panic!("{:?}", x) },
            T::Word("splat") => { c.exp(b'('); let t = c.ty(); let v = self.constant(c, &t); c.exp(b')'); let n = ty.nlanes(); (0..n).map(|_| v[0]).collect() }
            T::Global(g) => vec![self.gval(g)],
            T::P(b'[') => self.constlist(c, b']'),
            T::P(b'{') => self.constlist(c, b'}'),
            T::P(b'<') => {
                if c.p(b'{') { let v = self.constlist(c, b'}'); c.exp(b'>'); v } else { self.constlist(c, b'>') }
            }
            T::Word("getelementptr") => {
                while c.peek() != Some(&T::P(b'(')) { c.i += 1; }
                c.exp(b'(');
                let t = c.ty();
                c.exp(b',');
                c.to_ty();
                let bt = c.ty();
                let mut a = self.constant(c, &bt)[0];
                let mut cur = t;
                let mut first = true;
                while c.p(b',') {
                    let it = c.ty();
                    let iv = self.constant(c, &it)[0];
                    let w = if let Ty::Int(w) = it { w } else { 64 };
                    let iv = ((iv << (64 - w)) as i64) >> (64 - w);
                    if first { a = a.wrapping_add((iv as u64).wrapping_mul(cur.size())); first = false; }
                    else {
                        let (o, n) = gep_step(&cur, iv as u64);
                        a = a.wrapping_add(o);
                        cur = n;
                    }
                }
                c.exp(b')');
                vec![a]
            }
            T::Word(op @ ("ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "zext")) => {
                c.exp(b'(');
                let t = c.ty();
                let v = self.constant(c, &t)[0];
                assert!(c.w("to"));
                let t2 = c.ty();
                c.exp(b')');
                let _ = op;
                let m = match t2 { Ty::Int(w) if w < 64 => (1u64 << w) - 1, _ => !0 };
                vec![v & m]
            }
            T::Word(op @ ("sub" | "add" | "xor")) => {
                while c.peek() != Some(&T::P(b'(')) { c.i += 1; }
                c.exp(b'(');
                let t = c.ty();
                let a = self.constant(c, &t)[0];
                c.exp(b',');
                let t = c.ty();
                let b = self.constant(c, &t)[0];
                c.exp(b')');
                vec![match op { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), _ => a ^ b }]
            }
            x => panic!("constant {:?} ({:?})", x, &c.t[c.i.saturating_sub(5)..(c.i + 5).min(c.t.len())]),
        }
    }
    fn constlist(&self, c: &mut Cur, end: u8) -> Vec<u64> {
        let mut v = vec![];
        if c.p(end) { return v; }
        loop {
            let t = c.ty();
            v.extend(self.constant(c, &t));
            if c.p(end) { return v; }
            c.exp(b',');
        }
    }
    pub fn gval(&self, g: &str) -> u64 {
        if let Some(a) = self.gaddr.get(g) { return *a; }
        if let Some(f) = self.fmap.get(g) { return R_FUNC << 32 | (*f as u64 + 1) * 16; }
        if std::env::var_os("LRSYM_V").is_some() { eprintln!("unknown global {}", g); }
        0
    }

    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).expect("read .ll").into_boxed_str());
        let mut m = Module { text, funcs: vec![], fmap: HashMap::new(), gaddr: HashMap::new(), cdata: vec![0; 64], mdata: vec![0; 64] };
        let mut globals: Vec<(&'static str, &'static str)> = vec![];
        let mut noreturn: std::collections::HashSet<u32> = Default::default();
        let mut heads: Vec<(u32, &'static str)> = vec![];
        let mut pos = 0;
        let mut tk: Vec<T<'static>> = vec![];
        let bytes = text.as_bytes();
        while pos < text.len() {
            let eol = memchr(bytes, pos, b'\n');
            let line = &text[pos..eol];
            let c0 = bytes[pos.min(bytes.len() - 1)];
            if line.is_empty() || c0 == b';' || c0 == b'!' { pos = eol + 1; continue; }
            if c0 == b'@' {
                let sp = line.find(" = ").unwrap();
                let name = line[1..sp].trim_matches('"');
                globals.push((unsafe { std::mem::transmute::<&str, &'static str>(name) }, &text[pos + sp + 3..eol]));
            } else if line.starts_with("define ") || line.starts_with("declare ") {
                let at = line.find('@').unwrap();
                let rest = &line[at + 1..];
                let name: &'static str = if rest.starts_with('"') { let e = rest[1..].find('"').unwrap(); &text[pos + at + 2..pos + at + 2 + e] }
                    else { let e = rest.find('(').unwrap(); &text[pos + at + 1..pos + at + 1 + e] };
                let id = m.funcs.len() as u32;
                let mut body = (0, 0);
                let mut end = eol + 1;
                if line.starts_with("define") {
                    // body ends at a line "}"
                    let e = find_close(bytes, eol);
                    body = (pos, e);
                    end = e;
                }
                heads.push((id, &text[pos..eol]));
                m.funcs.push(Func { name: name.to_string(), body, special: Special::None, code: OnceLock::new(), used: Default::default() });
                m.fmap.insert(name, id);
                pos = end;
                continue;
            } else if line.starts_with("attributes #") {
                let sp = line["attributes #".len()..].find(' ').unwrap();
                let id: u32 = line["attributes #".len().."attributes #".len() + sp].parse().unwrap();
                if line.contains(" noreturn ") { noreturn.insert(id); }
            }
            pos = eol + 1;
        }
        for (id, h) in heads {
            let name = m.funcs[id as usize].name.clone();
            let mut sp = match name.as_str() {
                "lrsym_hole" => Special::Hole, "lrsym_assume" => Special::Assume, "lrsym_discard" => Special::Discard,
                "lrsym_fail" => Special::Fail, "lrsym_emit" => Special::Emit, "lrsym_input" => Special::Input, "lrsym_note" => Special::Free,
                "malloc" => Special::Malloc, "calloc" => Special::Calloc, "realloc" => Special::Realloc, "free" => Special::Free,
                "posix_memalign" => Special::Memalign, "memcmp" | "bcmp" => Special::Memcmp, "memchr" => Special::Memchr,
                "strlen" => Special::Strlen, "getrandom" => Special::Getrandom, "abort" => Special::Panic,
                _ => Special::None,
            };
            if sp == Special::None {
                let tail = &h[h.rfind(')').unwrap_or(0)..];
                for w in tail.split(|c: char| c == ' ') { if let Some(n) = w.strip_prefix('#') { if let Ok(n) = n.parse::<u32>() { if noreturn.contains(&n) { sp = Special::Panic; } } } }
                if name.contains("panicking") && !name.contains("panic_count") && (name.contains("9panicking5panic") || name.contains("rust_panic") || name.contains("begin_panic")) { sp = Special::Panic; }
                if name.contains("slice_error_fail") || name.contains("unwrap_failed") || name.contains("expect_failed") { sp = Special::Panic; }
            }
            m.funcs[id as usize].special = sp;
        }
        // layout
        let mut inits: Vec<(u64, Ty, Vec<T<'static>>, usize)> = vec![];
        for (name, def) in &globals {
            lex(def, &mut tk);
            let mut c = Cur { t: &tk, i: 0 };
            let mut is_const = false;
            let mut external = false;
            loop {
                match c.next() {
                    T::Word("constant") => { is_const = true; break; }
                    T::Word("global") => break,
                    T::Word("external") | T::Word("extern_weak") => external = true,
                    T::Word("alias") => { external = true; break; }
                    T::P(0) => panic!("global {}", def),
                    _ => {}
                }
            }
            if external { continue; }
            let ty = c.ty();
            // alignment at the end
            let mut al = ty.align().max(8);
            if let Some(p) = def.rfind(", align ") { if let Ok(n) = def[p + 8..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse::<u64>() { al = al.max(n); } }
            let (reg, d) = if is_const { (R_CONST, &mut m.cdata) } else { (R_MUT, &mut m.mdata) };
            while d.len() as u64 % al != 0 { d.push(0); }
            let addr = reg << 32 | d.len() as u64;
            let nl = d.len() + ty.size() as usize;
            d.resize(nl, 0);
            m.gaddr.insert(name, addr);
            let i = c.i;
            inits.push((addr, ty, tk.clone(), i));
        }
        for (addr, ty, tks, i) in inits {
            let mut c = Cur { t: &tks, i };
            let vals = m.constant(&mut c, &ty);
            let lanes = ty.lanes();
            assert_eq!(vals.len(), lanes.len());
            let off = (addr & 0xffff_ffff) as usize;
            let d = if addr >> 32 == R_CONST { &mut m.cdata } else { &mut m.mdata };
            for (v, (w, o)) in vals.iter().zip(lanes) {
                let n = (w as usize + 7) / 8;
                let p = off + o as usize;
                d[p..p + n].copy_from_slice(&v.to_le_bytes()[..n]);
            }
        }
        m
    }

    pub fn code(&self, f: u32) -> &Code {
        self.funcs[f as usize].code.get_or_init(|| Box::new(Compiler::compile(self, f)))
    }
}
fn memchr(b: &[u8], from: usize, c: u8) -> usize { b[from..].iter().position(|x| *x == c).map(|p| p + from).unwrap_or(b.len()) }
fn find_close(b: &[u8], from: usize) -> usize {
    let mut p = from;
    loop {
        // p at '\n'
        if p + 1 >= b.len() { return b.len(); }
        if b[p + 1] == b'}' { return p + 2; }
        p = memchr(b, p + 1, b'\n');
    }
}
fn gep_step(t: &Ty, i: u64) -> (u64, Ty) {
    match t {
        Ty::Arr(_, e) | Ty::Vec(_, e) => (i.wrapping_mul(e.size()), (**e).clone()),
        Ty::Struct(v, packed) => {
            let mut o = 0;
            for (j, t) in v.iter().enumerate() {
                if !packed { let a = t.align(); o = (o + a - 1) / a * a; }
                if j as u64 == i { return (o, t.clone()); }
                o += t.size();
            }
            panic!("gep_step")
        }
        _ => panic!("gep into {:?}", t),
    }
}

// ---- function compiler ------------------------------------------------------------------
struct Stmt<'a> { res: Option<&'a str>, toks: Vec<T<'a>>, start: usize }
struct Block<'a> { stmts: Vec<Stmt<'a>> }

struct Compiler<'m, 'a> {
    m: &'m Module,
    code: Vec<I>,
    consts: Vec<u64>,
    cmap: HashMap<u64, u32>,
    copies: Vec<(u32, Opd)>,
    calls: Vec<CallSite>,
    switches: Vec<SwitchT>,
    lists: Vec<Opd>,
    slots: HashMap<&'a str, (u32, u32)>,
    labels: HashMap<&'a str, u32>,
    block_pc: Vec<u32>,
    phis: Vec<Vec<(&'a str, Ty, Vec<T<'a>>)>>,
    cur_block: u32,
    unsupported: Vec<String>,
    selw: HashMap<u32, u8>,
    tmp: u32,
}

fn uses<'a>(toks: &[T<'a>], mut f: impl FnMut(&'a str)) { for t in toks { if let T::Local(n) = t { f(n) } } }

impl<'m, 'a> Compiler<'m, 'a> {
    fn k(&mut self, v: u64) -> Opd {
        if let Some(i) = self.cmap.get(&v) { return K | *i; }
        let i = self.consts.len() as u32;
        self.consts.push(v);
        self.cmap.insert(v, i);
        K | i
    }
    /// operand of a type at cursor -> first operand + number of lanes; lanes are consecutive
    /// (constants get materialised as consecutive constant indices)
    fn val(&mut self, c: &mut Cur<'_, 'a>, ty: &Ty) -> Opd {
        if let Some(T::Local(n)) = c.peek() {
            let n = *n;
            c.i += 1;
            return match self.slots.get(n) { Some((s, _)) => *s, None => panic!("undefined value %{}", n) };
        }
        let v = self.m.constant(c, ty);
        if v.len() == 1 { return self.k(v[0]); }
        let i = self.consts.len() as u32;
        self.consts.extend(v);
        K | i
    }
    fn lane(o: Opd, i: u32) -> Opd { o + i }

    fn skip_val_attrs(c: &mut Cur) {
        loop {
            match c.peek() {
                Some(T::Word(w)) if !matches!(*w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "c" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "trunc" | "sub" | "none") => {
                    let al = *w == "align";
                    c.i += 1;
                    if al { if let Some(T::Num(_)) = c.peek() { c.i += 1; } }
                    if c.peek() == Some(&T::P(b'(')) { c.skip_parens(); }
                }
                _ => return,
            }
        }
    }
    fn edge(&mut self, target: &str) -> Edge {
        let b = *self.labels.get(target).unwrap_or_else(|| panic!("label {}", target));
        let mut cps: Vec<(u32, Opd)> = vec![];
        let phis = std::mem::take(&mut self.phis[b as usize]);
        for (name, ty, toks) in &phis {
            let (ds, n) = self.slots[name];
            let mut c = Cur { t: toks, i: 0 };
            let mut found = false;
            loop {
                c.exp(b'[');
                // value then label
                let save = c.i;
                // find label: skip value
                let mut d = 0;
                loop {
                    match c.peek() {
                        Some(T::P(b'[')) | Some(T::P(b'(')) | Some(T::P(b'{')) | Some(T::P(b'<')) => d += 1,
                        Some(T::P(b']')) | Some(T::P(b')')) | Some(T::P(b'}')) | Some(T::P(b'>')) => d -= 1,
                        Some(T::P(b',')) if d == 0 => break,
                        None => panic!("phi"),
                        _ => {}
                    }
                    c.i += 1;
                }
                c.exp(b',');
                let l = match c.next() { T::Local(l) => l, x => panic!("phi label {:?}", x) };
                let lb = self.labels.get(l).copied().unwrap_or(0); // unnamed entry block
                c.exp(b']');
                let after = c.i;
                if lb == self.cur_block {
                    c.i = save;
                    let o = self.val(&mut c, ty);
                    for i in 0..n { cps.push((ds + i, Self::lane(o, i))); }
                    found = true;
                    break;
                }
                c.i = after;
                if !c.p(b',') { break; }
            }
            if !found { panic!("phi without matching predecessor"); }
        }
        self.phis[b as usize] = phis;
        let mut par = false;
        for i in 0..cps.len() { for j in i + 1..cps.len() { if cps[j].1 == cps[i].0 { par = true; } } }
        let e = Edge { pc: b, cp: self.copies.len() as u32, ncp: cps.len() as u32, par };
        self.copies.extend(cps);
        e
    }
    fn label(&mut self, c: &mut Cur<'_, 'a>) -> &'a str {
        if !c.w("label") { panic!("label expected") }
        match c.next() { T::Local(l) => l, x => panic!("{:?}", x) }
    }
    fn ity(t: &Ty) -> u8 { match t { Ty::Int(w) if *w <= 64 => *w as u8, Ty::Ptr => 64, _ => 0 } }

    fn compile(m: &'m Module, f: u32) -> Code {
        let (s, e) = m.funcs[f as usize].body;
        assert!(e > 0, "no body for {}", m.funcs[f as usize].name);
        let text: &'a str = unsafe { std::mem::transmute::<&str, &'a str>(&m.text[s..e]) };
        let mut lines = text.lines();
        let head = lines.next().unwrap();
        let mut toks: Vec<T<'a>> = vec![];
        lex(head, &mut toks);
        // parameters
        let mut c = Cur { t: &toks, i: 0 };
        while !matches!(c.peek(), Some(T::Global(_))) { c.i += 1; }
        c.i += 1;
        c.exp(b'(');
        let mut params: Vec<(&'a str, Ty)> = vec![];
        if !c.p(b')') {
            loop {
                if let Some(T::Word(w)) = c.peek() { if *w == "..." { break; } }
                let t = c.ty();
                Self::skip_val_attrs(&mut c);
                let n = match c.next() { T::Local(n) => n, x => panic!("param {:?} in {}", x, head) };
                params.push((n, t));
                if c.p(b')') { break; }
                c.exp(b',');
            }
        }
        // blocks
        let mut blocks: Vec<Block<'a>> = vec![];
        let mut labels: HashMap<&'a str, u32> = HashMap::new();
        let mut pending: Option<(&'a str, Vec<T<'a>>)> = None;
        let _ = &mut pending;
        let mut it = lines.peekable();
        while let Some(line) = it.next() {
            if line.is_empty() || line.starts_with(';') || line.starts_with('}') { continue; }
            if !line.starts_with(' ') {
                // label
                let l = if line.starts_with('"') { let e = line[1..].find('"').unwrap(); &line[1..1 + e] } else { &line[..line.find(':').unwrap()] };
                labels.insert(l, blocks.len() as u32);
                blocks.push(Block { stmts: vec![] });
                continue;
            }
            if blocks.is_empty() { blocks.push(Block { stmts: vec![] }); }
            let tl = line.trim_start();
            if tl.starts_with(';') || tl.starts_with("#dbg") { continue; }
            if tl == "cleanup" || tl.starts_with("catch ") || tl.starts_with("filter ") { continue; }
            let mut tv = vec![];
            lex(line, &mut tv);
            if tv.is_empty() { continue; }
            let mut st = 0;
            let mut res = None;
            if let T::Local(n) = tv[0] { if tv.get(1) == Some(&T::P(b'=')) { res = Some(n); st = 2; } }
            let head = if let Some(T::Word(w)) = tv.get(st) { *w } else { "" };
            if head == "switch" && tv.last() == Some(&T::P(b'[')) {
                let mut t2 = vec![];
                while let Some(l) = it.next() {
                    lex(l, &mut t2);
                    let done = t2.first() == Some(&T::P(b']'));
                    tv.extend(t2.iter().cloned());
                    if done { break; }
                }
            } else if head == "invoke" {
                let mut t2 = vec![];
                if let Some(l) = it.next() { lex(l, &mut t2); tv.extend(t2.iter().cloned()); }
            }
            blocks.last_mut().unwrap().stmts.push(Stmt { res, toks: tv, start: st });
        }
        let nb = blocks.len();
        let mut cp = Compiler {
            m, code: vec![], consts: vec![], cmap: HashMap::new(), copies: vec![], calls: vec![], switches: vec![], lists: vec![],
            slots: HashMap::new(), labels, block_pc: vec![0; nb], phis: (0..nb).map(|_| vec![]).collect(), cur_block: 0, unsupported: vec![], selw: HashMap::new(), tmp: 0,
        };
        // result types (lanes) of every value, def block, and whether it escapes its block
        let mut defs: HashMap<&'a str, (u32, u32, bool)> = HashMap::new(); // block, lanes, global
        let mut ns = 0u32;
        for (n, t) in &params {
            let l = t.nlanes();
            cp.slots.insert(n, (ns, l));
            ns += l;
        }
        let nparams = ns;
        for (bi, b) in blocks.iter().enumerate() {
            for s in &b.stmts {
                if let Some(r) = s.res {
                    let l = Self::result_lanes(s);
                    let is_phi = matches!(s.toks[s.start], T::Word("phi"));
                    let is_alloca = matches!(s.toks[s.start], T::Word("alloca"));
                    defs.insert(r, (bi as u32, l, is_phi || is_alloca));
                }
            }
        }
        for (bi, b) in blocks.iter().enumerate() {
            for s in &b.stmts {
                let phi = matches!(s.toks[s.start], T::Word("phi"));
                if phi {
                    // uses in phi happen in predecessor blocks
                    let t = &s.toks[s.start..];
                    let mut i = 0;
                    while i < t.len() {
                        if t[i] == T::P(b'[') {
                            // value , label ]
                            if let (T::Local(v), Some(T::P(b',')), Some(T::Local(l))) = (&t[i + 1], t.get(i + 2), t.get(i + 3)) {
                                let pb = cp.labels.get(l).copied().unwrap_or(0);
                                if let Some(d) = defs.get_mut(v) { if d.0 != pb { d.2 = true; } }
                            }
                        }
                        i += 1;
                    }
                } else {
                    uses(&s.toks[s.start..], |n| { if let Some(d) = defs.get_mut(n) { if d.0 != bi as u32 { d.2 = true; } } });
                }
            }
        }
        for b in &blocks {
            for s in &b.stmts {
                if let Some(r) = s.res { let (_, l, g) = defs[r]; if g { cp.slots.insert(r, (ns, l)); ns += l; } }
            }
        }
        let nglobal = ns;
        let mut maxs = ns;
        for b in &blocks {
            let mut x = nglobal;
            for s in &b.stmts {
                if let Some(r) = s.res { let (_, l, g) = defs[r]; if !g { cp.slots.insert(r, (x, l)); x += l; } }
            }
            maxs = maxs.max(x);
        }
        cp.tmp = maxs;
        let nslots = maxs + 64;
        // collect phis
        for (bi, b) in blocks.iter().enumerate() {
            for s in &b.stmts {
                if matches!(s.toks[s.start], T::Word("phi")) {
                    let mut c = Cur { t: &s.toks, i: s.start + 1 };
                    c.to_ty();
                    let ty = c.ty();
                    cp.phis[bi].push((s.res.unwrap(), ty, s.toks[c.i..].to_vec()));
                }
            }
        }
        let mut allocas = vec![];
        let mut asz = 0u64;
        for (bi, b) in blocks.iter().enumerate() {
            cp.cur_block = bi as u32;
            cp.block_pc[bi] = cp.code.len() as u32;
            for s in &b.stmts { cp.stmt(s, bi == 0, &mut allocas, &mut asz); }
        }
        // resolve edges
        let bp = cp.block_pc.clone();
        let fix = |e: &mut Edge| e.pc = bp[e.pc as usize];
        for i in cp.code.iter_mut() {
            match i {
                I::Br(e) => fix(e),
                I::CondBr { t, f, .. } => { fix(t); fix(f); }
                I::Switch { def, .. } => fix(def),
                _ => {}
            }
        }
        for s in cp.switches.iter_mut() { for (_, e) in s.cases.iter_mut() { fix(e); } }
        for c in cp.calls.iter_mut() { if let Some(e) = c.cont.as_mut() { fix(e); } }
        let hashy = cp.consts.contains(&8317987319222330741);
        Code {
            hashy, code: cp.code, consts: cp.consts, copies: cp.copies, calls: cp.calls, switches: cp.switches, lists: cp.lists, nslots, nparams,
            alloca_size: (asz + 15) / 16 * 16, allocas, unsupported: cp.unsupported, selw: cp.selw,
        }
    }
    fn result_lanes(s: &Stmt<'a>) -> u32 {
        let mut c = Cur { t: &s.toks, i: s.start };
        let op = match c.next() { T::Word(w) => w, x => panic!("{:?}", x) };
        match op {
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" { c.i += 1; }
                c.to_ty();
                c.ty().nlanes()
            }
            "icmp" | "fcmp" => {
                c.to_ty();
                match c.ty() { Ty::Vec(n, _) => n as u32, _ => 1 }
            }
            "extractvalue" => {
                let t = c.ty();
                c.i += 1; // value (a local)
                let mut t = t;
                while c.p(b',') { match c.peek() { Some(T::Num(_)) => { let i = c.num(); t = gep_step(&t, i).1; } _ => break } }
                t.nlanes()
            }
            "insertvalue" | "insertelement" | "shufflevector" | "freeze" | "landingpad" | "phi" | "load" => {
                c.to_ty();
                let t = c.ty();
                t.nlanes()
            }
            "extractelement" => { let t = c.ty(); match t { Ty::Vec(_, e) => e.nlanes(), _ => 1 } }
            "select" => {
                // select cty c, ty a, ty b : find type after first top-level comma
                c.to_ty();
                let _ct = c.ty();
                let mut d = 0;
                loop {
                    match c.next() {
                        T::P(b',') if d == 0 => break,
                        T::P(b'(') | T::P(b'<') | T::P(b'[') | T::P(b'{') => d += 1,
                        T::P(b')') | T::P(b'>') | T::P(b']') | T::P(b'}') => d -= 1,
                        T::P(0) => panic!(),
                        _ => {}
                    }
                }
                c.ty().nlanes()
            }
            "cmpxchg" => 2,
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" => {
                let p = s.toks.iter().rposition(|t| *t == T::Word("to")).unwrap();
                let mut c = Cur { t: &s.toks, i: p + 1 };
                c.ty().nlanes()
            }
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => { c.to_ty(); c.ty().nlanes() }
            _ => 1,
        }
    }
    fn unsup(&mut self, what: String) {
        let i = self.unsupported.len() as u32;
        self.unsupported.push(what);
        self.code.push(I::Unsupported { what: i });
    }
    fn stmt(&mut self, s: &Stmt<'a>, entry: bool, allocas: &mut Vec<(u32, u64)>, asz: &mut u64) {
        let mut cur = Cur { t: &s.toks, i: s.start };
        let c = &mut cur;
        let (d, dn) = match s.res { Some(r) => self.slots[r], None => (0, 0) };
        let op = match c.next() { T::Word(w) => w, x => panic!("stmt {:?}", x) };
        match op {
            "phi" | "fence" => {}
            "alloca" => {
                let ty = c.ty();
                let mut al = ty.align().max(8);
                if c.p(b',') {
                    if c.is_ty() {
                        let t = c.ty();
                        let n = self.val(c, &t);
                        self.code.push(I::AllocaDyn { d, n, sz: ty.size() });
                        return;
                    }
                    if c.w("align") { al = al.max(c.num()); }
                }
                if !entry { let n = self.k(1); self.code.push(I::AllocaDyn { d, n, sz: ty.size() }); return; }
                *asz = (*asz + al - 1) / al * al;
                allocas.push((d, *asz));
                *asz += ty.size();
            }
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                let bop = match op {
                    "add" => Bop::Add, "sub" => Bop::Sub, "mul" => Bop::Mul, "udiv" => Bop::UDiv, "urem" => Bop::URem, "sdiv" => Bop::SDiv,
                    "srem" => Bop::SRem, "and" => Bop::And, "or" => Bop::Or, "xor" => Bop::Xor, "shl" => Bop::Shl, "lshr" => Bop::LShr, _ => Bop::AShr,
                };
                c.to_ty();
                let ty = c.ty();
                let a = self.val(c, &ty);
                c.exp(b',');
                let b = self.val(c, &ty);
                match &ty {
                    Ty::Vec(n, e) => { let w = Self::ity(e); for i in 0..*n as u32 { self.code.push(I::Bin { op: bop, w, d: d + i, a: a + i, b: b + i }); } }
                    t if Self::ity(t) > 0 => self.code.push(I::Bin { op: bop, w: Self::ity(t), d, a, b }),
                    Ty::Int(128) if matches!(op, "and" | "or" | "xor") => for i in 0..2 { self.code.push(I::Bin { op: bop, w: 64, d: d + i, a: a + i, b: b + i }); },
                    t => self.unsup(format!("{} {:?}", op, t)),
                }
            }
            "icmp" => {
                let mut p = None;
                while !c.is_ty() {
                    if let T::Word(w) = c.next() {
                        p = Some(match w {
                            "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge,
                            "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, _ => continue,
                        });
                    }
                }
                let p = p.unwrap();
                let ty = c.ty();
                let a = self.val(c, &ty);
                c.exp(b',');
                let b = self.val(c, &ty);
                match &ty {
                    Ty::Vec(n, e) => self.code.push(I::VecIcmp { p, w: Self::ity(e), n: *n as u8, d, a, b }),
                    Ty::Int(128) if matches!(p, Pred::Eq | Pred::Ne) => {
                        let t = self.tmp;
                        self.code.push(I::Icmp { p, w: 64, d: t, a, b });
                        self.code.push(I::Icmp { p, w: 64, d: t + 1, a: a + 1, b: b + 1 });
                        self.code.push(I::Bin { op: if p == Pred::Eq { Bop::And } else { Bop::Or }, w: 1, d, a: t, b: t + 1 });
                    }
                    t if Self::ity(t) > 0 => self.code.push(I::Icmp { p, w: Self::ity(t), d, a, b }),
                    t => self.unsup(format!("icmp {:?}", t)),
                }
            }
            "select" => {
                c.to_ty();
                let ct = c.ty();
                let cv = self.val(c, &ct);
                c.exp(b',');
                let ty = c.ty();
                let a = self.val(c, &ty);
                c.exp(b',');
                let ty2 = c.ty();
                let b = self.val(c, &ty2);
                let vec = matches!(ct, Ty::Vec(..));
                let lw = ty.lanes();
                for i in 0..ty.nlanes() { self.selw.insert(self.code.len() as u32, lw[i as usize].0); self.code.push(I::Select { d: d + i, c: if vec { cv + i } else { cv }, a: a + i, b: b + i }); }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" => {
                c.to_ty();
                let ty = c.ty();
                let a = self.val(c, &ty);
                assert!(c.w("to"));
                let t2 = c.ty();
                match (&ty, &t2) {
                    (Ty::Vec(n, e), Ty::Int(_)) if op == "bitcast" && **e == Ty::Int(1) => self.code.push(I::PackBits { d, a, n: *n as u8 }),
                    (x, y) if op == "bitcast" && x.nlanes() == y.nlanes() => for i in 0..x.nlanes() { self.code.push(I::Copy { d: d + i, a: a + i }); },
                    (Ty::Vec(n, e), Ty::Vec(_, e2)) => {
                        let (fw, w) = (Self::ity(e), Self::ity(e2));
                        for i in 0..*n as u32 {
                            self.code.push(match op { "zext" => I::Zext { d: d + i, a: a + i, fw, w }, "sext" => I::Sext { d: d + i, a: a + i, fw, w }, _ => I::Trunc { d: d + i, a: a + i, w } });
                        }
                    }
                    (x, y) if Self::ity(x) > 0 && Self::ity(y) > 0 => {
                        let (fw, w) = (Self::ity(x), Self::ity(y));
                        self.code.push(match op {
                            "zext" => I::Zext { d, a, fw, w },
                            "sext" => I::Sext { d, a, fw, w },
                            _ => if fw == w { I::Copy { d, a } } else if fw > w { I::Trunc { d, a, w } } else { I::Zext { d, a, fw, w } },
                        });
                    }
                    (x, Ty::Int(128)) if op == "zext" && Self::ity(x) > 0 => {
                        let fw = Self::ity(x);
                        self.code.push(if fw == 64 { I::Copy { d, a } } else { I::Zext { d, a, fw, w: 64 } });
                        let z = self.k(0);
                        self.code.push(I::Copy { d: d + 1, a: z });
                    }
                    (Ty::Int(128), y) if op == "trunc" && Self::ity(y) > 0 => {
                        let w = Self::ity(y);
                        self.code.push(if w == 64 { I::Copy { d, a } } else { I::Trunc { d, a, w } });
                    }
                    (x, y) => self.unsup(format!("{} {:?} {:?}", op, x, y)),
                }
            }
            "freeze" => { let ty = c.ty(); let a = self.val(c, &ty); for i in 0..ty.nlanes() { self.code.push(I::Copy { d: d + i, a: a + i }); } }
            "getelementptr" => {
                c.to_ty();
                let t = c.ty();
                c.exp(b',');
                let bt = c.ty();
                if bt != Ty::Ptr { self.unsup("vector gep".into()); return; }
                let mut base = self.val(c, &bt);
                let mut cur_t = t;
                let mut first = true;
                let mut koff = 0u64;
                while c.p(b',') {
                    if !c.is_ty() { break; }
                    let it = c.ty();
                    let iw = Self::ity(&it);
                    let is_const = matches!(c.peek(), Some(T::Num(_)) | Some(T::Word(_)));
                    if is_const {
                        let v = self.m.constant(c, &it)[0];
                        let v = ((v << (64 - iw)) as i64 >> (64 - iw)) as u64;
                        if first { koff = koff.wrapping_add(v.wrapping_mul(cur_t.size())); }
                        else { let (o, n) = gep_step(&cur_t, v); koff = koff.wrapping_add(o); cur_t = n; }
                    } else {
                        let iv = self.val(c, &it);
                        let scale = if first { cur_t.size() } else { let (o, n) = gep_step(&cur_t, 1); cur_t = n; o };
                        self.code.push(I::Gep { d, a: base, i: iv, iw, scale });
                        base = d;
                    }
                    first = false;
                }
                if koff != 0 || base != d { self.code.push(I::AddK { d, a: base, k: koff }); }
            }
            "load" => {
                c.to_ty();
                let ty = c.ty();
                c.exp(b',');
                let pt = c.ty();
                let a = self.val(c, &pt);
                for (i, (w, o)) in ty.lanes().iter().enumerate() {
                    let mut n = (*w + 7) / 8;
                    if !n.is_power_of_two() { n = n.next_power_of_two(); }
                    if let Ty::Vec(_, e) = &ty { if **e == Ty::Int(1) { self.unsup("load <n x i1>".into()); return; } }
                    self.code.push(I::Load { d: d + i as u32, a, n, w: *w, off: *o as u32 });
                }
            }
            "store" => {
                while !c.is_ty() { c.i += 1; }
                let ty = c.ty();
                let v = self.val(c, &ty);
                c.exp(b',');
                let pt = c.ty();
                let a = self.val(c, &pt);
                for (i, (w, o)) in ty.lanes().iter().enumerate() {
                    let n = ((*w + 7) / 8).next_power_of_two();
                    self.code.push(I::Store { v: v + i as u32, a, n, off: *o as u32 });
                }
            }
            "br" => {
                if c.peek() == Some(&T::Word("label")) {
                    let l = self.label(c);
                    let e = self.edge(l);
                    self.code.push(I::Br(e));
                } else {
                    let t = c.ty();
                    let cv = self.val(c, &t);
                    c.exp(b',');
                    let l1 = self.label(c);
                    c.exp(b',');
                    let l2 = self.label(c);
                    let t = self.edge(l1);
                    let f = self.edge(l2);
                    self.code.push(I::CondBr { c: cv, t, f });
                }
            }
            "switch" => {
                let t = c.ty();
                let v = self.val(c, &t);
                c.exp(b',');
                let dl = self.label(c);
                let def = self.edge(dl);
                c.exp(b'[');
                let mut cases = vec![];
                while !c.p(b']') {
                    let ct = c.ty();
                    let k = self.m.constant(c, &ct)[0];
                    c.exp(b',');
                    let l = self.label(c);
                    let e = self.edge(l);
                    cases.push((k, e));
                }
                let map: HashMap<u64, u32> = cases.iter().enumerate().map(|(i, (k, _))| (*k, i as u32)).collect();
                let mut dense = None;
                if !cases.is_empty() {
                    let lo = cases.iter().map(|x| x.0).min().unwrap();
                    let hi = cases.iter().map(|x| x.0).max().unwrap();
                    if hi - lo < 4096 {
                        let mut tb = vec![u32::MAX; (hi - lo + 1) as usize];
                        for (i, (k, _)) in cases.iter().enumerate() { tb[(*k - lo) as usize] = i as u32; }
                        dense = Some((lo, tb));
                    }
                }
                let idx = self.switches.len() as u32;
                self.switches.push(SwitchT { cases, map, dense });
                self.code.push(I::Switch { v, w: Self::ity(&t), idx, def });
            }
            "ret" => {
                let t = c.ty();
                if t == Ty::Void { self.code.push(I::Ret { a: 0, n: 0, lst: 0 }); }
                else { let a = self.val(c, &t); self.code.push(I::Ret { a, n: t.nlanes() as u8, lst: 0 }); }
            }
            "unreachable" | "resume" => self.code.push(I::Unreachable),
            "landingpad" => {}
            "extractvalue" => {
                let t = c.ty();
                let a = self.val(c, &t);
                let mut t = t;
                let mut off = 0;
                while c.p(b',') {
                    if !matches!(c.peek(), Some(T::Num(_))) { break; }
                    let i = c.num();
                    match &t {
                        Ty::Struct(v, _) => { off += v[..i as usize].iter().map(|x| x.nlanes()).sum::<u32>(); let n = v[i as usize].clone(); t = n; }
                        Ty::Arr(_, e) => { off += i as u32 * e.nlanes(); let n = (**e).clone(); t = n; }
                        _ => panic!(),
                    }
                }
                for i in 0..t.nlanes() { self.code.push(I::Copy { d: d + i, a: a + off + i }); }
            }
            "insertvalue" => {
                let t = c.ty();
                let a = self.val(c, &t);
                c.exp(b',');
                let et = c.ty();
                let ev = self.val(c, &et);
                let n = t.nlanes();
                let mut t = t;
                let mut off = 0;
                while c.p(b',') {
                    if !matches!(c.peek(), Some(T::Num(_))) { break; }
                    let i = c.num();
                    match &t {
                        Ty::Struct(v, _) => { off += v[..i as usize].iter().map(|x| x.nlanes()).sum::<u32>(); let n = v[i as usize].clone(); t = n; }
                        Ty::Arr(_, e) => { off += i as u32 * e.nlanes(); let n = (**e).clone(); t = n; }
                        _ => panic!(),
                    }
                }
                let en = et.nlanes();
                for i in 0..n { let src = if i >= off && i < off + en { ev + (i - off) } else { a + i }; self.code.push(I::Copy { d: d + i, a: src }); }
            }
            "insertelement" => {
                let t = c.ty();
                let a = self.val(c, &t);
                c.exp(b',');
                let et = c.ty();
                let ev = self.val(c, &et);
                c.exp(b',');
                let it = c.ty();
                if !matches!(c.peek(), Some(T::Num(_))) { self.unsup("insertelement var".into()); return; }
                let i = self.m.constant(c, &it)[0] as u32;
                for j in 0..t.nlanes() { self.code.push(I::Copy { d: d + j, a: if j == i { ev } else { a + j } }); }
            }
            "extractelement" => {
                let t = c.ty();
                let a = self.val(c, &t);
                c.exp(b',');
                let it = c.ty();
                if !matches!(c.peek(), Some(T::Num(_))) { self.unsup("extractelement var".into()); return; }
                let i = self.m.constant(c, &it)[0] as u32;
                self.code.push(I::Copy { d, a: a + i });
            }
            "shufflevector" => {
                let t = c.ty();
                let a = self.val(c, &t);
                c.exp(b',');
                let t2 = c.ty();
                let b = self.val(c, &t2);
                c.exp(b',');
                let mt = c.ty();
                let mk = self.m.constant(c, &mt);
                let n = t.nlanes();
                for (j, i) in mk.iter().enumerate() {
                    let i = *i as u32;
                    self.code.push(I::Copy { d: d + j as u32, a: if i < n { a + i } else { b + i - n } });
                }
            }
            "atomicrmw" => {
                c.w("volatile");
                let o = match c.next() { T::Word(w) => w, _ => "" };
                let pt = c.ty();
                let a = self.val(c, &pt);
                c.exp(b',');
                let t = c.ty();
                let v = self.val(c, &t);
                let w = Self::ity(&t);
                let code = match o { "xchg" => 0, "add" => 1, "sub" => 2, "and" => 3, "or" => 4, "xor" => 5, _ => 255 };
                self.code.push(I::AtomicRmw { op: code, d, a, v, n: (w + 7) / 8, w });
            }
            "cmpxchg" => {
                while !c.is_ty() { c.i += 1; }
                let pt = c.ty();
                let a = self.val(c, &pt);
                c.exp(b',');
                let t = c.ty();
                let cv = self.val(c, &t);
                c.exp(b',');
                let t = c.ty();
                let v = self.val(c, &t);
                let w = Self::ity(&t);
                self.code.push(I::CmpXchg { d, a, c: cv, v, n: (w + 7) / 8, w });
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" { c.i += 1; }
                c.to_ty();
                let rt = c.ty();
                // optional function type
                if c.peek() == Some(&T::P(b'(')) { c.skip_parens(); }
                let mut target = None;
                let mut name = "";
                let mut fptr = 0;
                match c.peek().cloned() {
                    Some(T::Global(g)) => { c.i += 1; name = g; target = self.m.fmap.get(g).copied(); }
                    Some(T::Local(_)) => { fptr = self.val(c, &Ty::Ptr); }
                    Some(T::Word("asm")) => { return; }
                    Some(T::Word("inttoptr")) => { fptr = self.val(c, &Ty::Ptr); }
                    x => panic!("callee {:?}", x),
                }
                c.exp(b'(');
                let mut args: Vec<Opd> = vec![];
                let mut tys: Vec<Ty> = vec![];
                let mut firsts: Vec<Opd> = vec![];
                if !c.p(b')') {
                    loop {
                        let t = c.ty();
                        if t == Ty::Meta { while !matches!(c.peek(), Some(T::P(b',')) | Some(T::P(b')'))) { c.i += 1; } }
                        else {
                            Self::skip_val_attrs(c);
                            let v = self.val(c, &t);
                            firsts.push(v);
                            for i in 0..t.nlanes() { args.push(v + i); }
                            tys.push(t);
                        }
                        if c.p(b')') { break; }
                        c.exp(b',');
                    }
                }
                let mut cont = None;
                if op == "invoke" {
                    while !(c.peek() == Some(&T::Word("to"))) { if c.peek().is_none() { panic!("invoke to"); } c.i += 1; }
                    c.i += 1;
                    let l = self.label(c);
                    cont = Some(self.edge(l));
                }
                if name.starts_with("llvm.") {
                    self.intrinsic(name, d, &rt, &tys, &firsts);
                    if let Some(e) = cont { self.code.push(I::Br(e)); }
                    return;
                }
                if target.is_none() && !name.is_empty() { self.unsup(format!("call to unknown @{}", name)); return; }
                let idx = self.calls.len() as u32;
                self.calls.push(CallSite { target, fptr, args, d, nret: rt.nlanes(), cont });
                self.code.push(I::Call { idx });
            }
            _ => { let _ = dn; self.unsup(op.to_string()) }
        }
    }
    fn intrinsic(&mut self, name: &str, d: u32, _rt: &Ty, tys: &[Ty], a: &[Opd]) {
        let w = tys.get(0).map(Self::ity).unwrap_or(0);
        let n = &name[5..];
        let op = if n.starts_with("memcpy") || n.starts_with("memmove") { Intr::Memcpy }
            else if n.starts_with("memset") { Intr::Memset }
            else if n.starts_with("umin.") { Intr::Umin } else if n.starts_with("umax.") { Intr::Umax }
            else if n.starts_with("smin.") { Intr::Smin } else if n.starts_with("smax.") { Intr::Smax }
            else if n.starts_with("usub.sat") { Intr::UsubSat } else if n.starts_with("uadd.sat") { Intr::UaddSat }
            else if n.starts_with("umul.with") { Intr::UmulOv } else if n.starts_with("smul.with") { Intr::SmulOv }
            else if n.starts_with("uadd.with") { Intr::UaddOv } else if n.starts_with("sadd.with") { Intr::SaddOv }
            else if n.starts_with("usub.with") { Intr::UsubOv } else if n.starts_with("ssub.with") { Intr::SsubOv }
            else if n.starts_with("fshl") { Intr::Fshl } else if n.starts_with("fshr") { Intr::Fshr }
            else if n.starts_with("ctlz") { Intr::Ctlz } else if n.starts_with("cttz") { Intr::Cttz } else if n.starts_with("ctpop") { Intr::Ctpop }
            else if n.starts_with("bswap") { Intr::Bswap } else if n.starts_with("bitreverse") { Intr::Bitrev } else if n.starts_with("abs") { Intr::Abs }
            else if n.starts_with("scmp") { Intr::Scmp } else if n.starts_with("ucmp") { Intr::Ucmp }
            else if n.starts_with("assume") || n.starts_with("lifetime") || n.starts_with("experimental.noalias") || n.starts_with("prefetch") || n.starts_with("donothing") || n.starts_with("dbg") || n.starts_with("x86.sse2.pause") { Intr::Nop }
            else if n.starts_with("expect") || n.starts_with("threadlocal.address") || n.starts_with("ssa.copy") || n.starts_with("launder") { Intr::Ident }
            else if n.starts_with("is.constant") { Intr::IsConst }
            else if n.starts_with("load.relative") { Intr::LoadRel }
            else if n.starts_with("trap") { Intr::Trap }
            else { Intr::Unsupported };
        if op == Intr::Nop { return; }
        if op == Intr::Unsupported || (w == 0 && op != Intr::Trap) { self.unsup(format!("intrinsic {} {:?}", name, tys)); return; }
        let w = if op == Intr::Memset { 8 } else { w };
        let g = |i: usize| a.get(i).copied().unwrap_or(0);
        self.code.push(I::Intr { op, w, d, args: [g(0), g(1), g(2)] });
    }
}
