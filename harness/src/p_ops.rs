//! C08: operator precedence against a reference parser for Ruby's operator table.
use crate::p_lex::cat;
use crate::props::*;
use crate::rt::*;
use crate::dump;

/// (spelling, precedence, associativity: l r n)
const BIN: &[(&str, u8, u8)] = &[
    ("**", 16, b'r'), ("*", 14, b'l'), ("/", 14, b'l'), ("%", 14, b'l'), ("+", 13, b'l'), ("-", 13, b'l'), ("<<", 12, b'l'), (">>", 12, b'l'), ("&", 11, b'l'), ("|", 10, b'l'), ("^", 10, b'l'),
    (">", 9, b'l'), (">=", 9, b'l'), ("<", 9, b'l'), ("<=", 9, b'l'), ("<=>", 8, b'n'), ("==", 8, b'n'), ("===", 8, b'n'), ("!=", 8, b'n'), ("=~", 8, b'n'), ("!~", 8, b'n'),
    ("&&", 7, b'l'), ("||", 6, b'l'), ("..", 5, b'n'), ("...", 5, b'n'),
];
/// prefix operators: (spelling, precedence)
const PRE: &[(&str, u8)] = &[("", 99), ("-", 15), ("!", 17), ("~", 17), ("+", 17), ("x = ", 3), ("x += ", 3), ("x ||= ", 3), ("x &&= ", 3), ("defined? ", 2)];
const TERNARY: u8 = 4;
#[derive(Clone, Copy)]
enum T { Pre(usize), Id(u8), Bin(usize), Eh, Colon, End }
struct P<'a> { t: &'a [T], i: usize, bad: bool, odd: bool }
fn ident(out: &mut Vec<u8>, c: u8) { out.extend_from_slice(b"(send method_name=\""); out.push(c); out.extend_from_slice(b"\" args=[])"); }
fn starts_with_range(s: &[u8]) -> bool { crate::p_inv::starts(s, 0, b"(irange") || crate::p_inv::starts(s, 0, b"(erange") }
fn range_in_cond(s: &[u8]) -> bool { crate::p_inv::starts_in(s, b"(irange") || crate::p_inv::starts_in(s, b"(erange") }
impl<'a> P<'a> {
    fn peek(&self) -> T { if self.i < self.t.len() { self.t[self.i] } else { T::End } }
    fn expr(&mut self, min: u8) -> Vec<u8> {
        let mut left = match self.peek() {
            T::Pre(k) => {
                self.i += 1;
                let (s, p) = PRE[k];
                let v = self.expr(if p == 15 { 15 } else { p });
                match s {
                    "-" => cat(&[b"(send recv=", &v, b" method_name=\"-@\" args=[])"]),
                    "+" => cat(&[b"(send recv=", &v, b" method_name=\"+@\" args=[])"]),
                    "~" => cat(&[b"(send recv=", &v, b" method_name=\"~\" args=[])"]),
                    "!" => { if range_in_cond(&v) { self.odd = true; } cat(&[b"(send recv=", &v, b" method_name=\"!\" args=[])"]) }
                    "x = " => cat(&[b"(lvasgn name=\"x\" value=", &v, b")"]),
                    "x += " => cat(&[b"(op_asgn recv=(lvasgn name=\"x\") operator=\"+\" value=", &v, b")"]),
                    "x ||= " => cat(&[b"(or_asgn recv=(lvasgn name=\"x\") value=", &v, b")"]),
                    "x &&= " => cat(&[b"(and_asgn recv=(lvasgn name=\"x\") value=", &v, b")"]),
                    _ => cat(&[b"(defined value=", &v, b")"]),
                }
            }
            T::Id(c) => { self.i += 1; let mut o = vec![]; ident(&mut o, c); o }
            _ => { self.bad = true; return vec![]; }
        };
        let mut last_n = 0;
        loop {
            match self.peek() {
                T::Bin(k) => {
                    let (s, p, a) = BIN[k];
                    if p < min { break; }
                    if a == b'n' && p == last_n { self.bad = true; return left; }
                    self.i += 1;
                    let right = self.expr(if a == b'r' { p } else { p + 1 });
                    // an operand that swallowed everything up to a non-associative operator
                    if a == b'n' { if let T::Bin(k2) = self.peek() { if BIN[k2].1 == p { self.bad = true; return left; } } }
                    last_n = if a == b'n' { p } else { 0 };
                    left = match s {
                        "&&" => cat(&[b"(and lhs=", &left, b" rhs=", &right, b")"]),
                        "||" => cat(&[b"(or lhs=", &left, b" rhs=", &right, b")"]),
                        ".." => cat(&[b"(irange left=", &left, b" right=", &right, b")"]),
                        "..." => cat(&[b"(erange left=", &left, b" right=", &right, b")"]),
                        _ => cat(&[b"(send recv=", &left, b" method_name=\"", s.as_bytes(), b"\" args=[", &right, b"])"]),
                    };
                }
                T::Eh => {
                    if TERNARY < min { break; }
                    self.i += 1;
                    if range_in_cond(&left) { self.odd = true; }
                    let a = self.expr(0);
                    match self.peek() { T::Colon => self.i += 1, _ => { self.bad = true; return left; } }
                    let b = self.expr(TERNARY);
                    left = cat(&[b"(if_ternary cond=", &left, b" if_true=", &a, b" if_false=", &b, b")"]);
                }
                _ => break,
            }
        }
        left
    }
}
fn source(t: &[T]) -> Vec<u8> {
    let mut o = vec![];
    for x in t.iter() {
        match x {
            T::Pre(k) => o.extend_from_slice(PRE[*k].0.as_bytes()),
            T::Id(c) => o.push(*c),
            T::Bin(k) => { o.push(b' '); o.extend_from_slice(BIN[*k].0.as_bytes()); o.push(b' '); }
            T::Eh => o.extend_from_slice(b" ? "),
            T::Colon => o.extend_from_slice(b" : "),
            T::End => {}
        }
    }
    o
}
fn reference(t: &[T]) -> Option<Vec<u8>> {
    let mut p = P { t, i: 0, bad: false, odd: false };
    let v = p.expr(0);
    if p.odd { lrsym_discard(); }
    if p.bad || p.i != t.len() { None } else { Some(v) }
}
fn compare(src: Vec<u8>, want: Option<Vec<u8>>) {
    input(&src);
    let r = parse(src);
    match want {
        None => check(dump::has_error(&r), "combination of non-associative operators accepted"),
        Some(w) => {
            let got = dump::ast(&r, false);
            emit(&got);
            if got != w { note(&w); note(&got); fail("operators grouped wrongly"); }
            check(!dump::has_error(&r), "operators rejected");
        }
    }
}
fn operand(t: &mut Vec<T>, c: u8, npre: usize) {
    if npre > 1 { let k = choose(npre); if k > 0 { t.push(T::Pre(k)); } }
    t.push(T::Id(c));
}
/// P a OP1 P b OP2 P c
fn two(_t: u32, c: u32) {
    let mut t = vec![];
    operand(&mut t, b'a', PRE.len());
    t.push(T::Bin(c as usize));
    operand(&mut t, b'b', PRE.len());
    t.push(T::Bin(choose(BIN.len())));
    operand(&mut t, b'c', PRE.len());
    compare(source(&t), reference(&t));
}
/// a OP1 b OP2 c OP3 d (and, thoroughly, OP4 e)
fn three(tier: u32, c: u32) {
    let mut t = vec![T::Id(b'a'), T::Bin(c as usize), T::Id(b'b'), T::Bin(choose(BIN.len())), T::Id(b'c'), T::Bin(choose(BIN.len())), T::Id(b'd')];
    if tier > 0 { t.push(T::Bin(choose(BIN.len()))); t.push(T::Id(b'e')); }
    compare(source(&t), reference(&t));
}
/// a OP b ? c OP d : e OP f, with prefixes and nested ternaries
fn ternary(_t: u32, c: u32) {
    let mut t = vec![];
    operand(&mut t, b'a', PRE.len());
    t.push(T::Bin(c as usize));
    t.push(T::Id(b'b'));
    t.push(T::Eh);
    match choose(3) {
        0 => operand(&mut t, b'c', PRE.len()),
        1 => { t.push(T::Id(b'c')); t.push(T::Bin(choose(BIN.len()))); t.push(T::Id(b'd')); }
        _ => { t.push(T::Id(b'c')); t.push(T::Eh); t.push(T::Id(b'd')); t.push(T::Colon); t.push(T::Id(b'e')); }
    }
    t.push(T::Colon);
    match choose(3) {
        0 => operand(&mut t, b'f', PRE.len()),
        1 => { t.push(T::Id(b'f')); t.push(T::Bin(choose(BIN.len()))); t.push(T::Id(b'g')); }
        _ => { t.push(T::Id(b'f')); t.push(T::Eh); t.push(T::Id(b'g')); t.push(T::Colon); t.push(T::Id(b'h')); }
    }
    compare(source(&t), reference(&t));
}
/// nested prefixes: P P P a OP b
fn prefixes(_t: u32, c: u32) {
    let mut t = vec![T::Pre(1 + c as usize)];
    let k = choose(PRE.len());
    if k > 0 { t.push(T::Pre(k)); let k = choose(PRE.len()); if k > 0 { t.push(T::Pre(k)); } }
    t.push(T::Id(b'a'));
    if choose(2) == 1 { t.push(T::Bin(choose(BIN.len()))); operand(&mut t, b'b', PRE.len()); }
    // an operator before an assignment target is not one, `!~` is another operator
    let mut i = 0;
    while i + 1 < t.len() {
        if let (T::Pre(p), T::Pre(q)) = (t[i], t[i + 1]) { if PRE[p].1 >= 15 && PRE[q].1 == 3 || PRE[p].0 == "!" && PRE[q].0 == "~" { lrsym_discard(); } }
        i += 1;
    }
    compare(source(&t), reference(&t));
}
/// [not] A (and|or) [not] B (and|or) C, then modifiers
const MODS: &[&str] = &["", "if", "unless", "while", "until", "rescue"];
fn simple(c: u8, d: u8) -> (Vec<u8>, Vec<u8>) {
    let k = choose(6);
    let t: Vec<T> = match k { 0 => vec![T::Id(c)], 1 => vec![T::Id(c), T::Bin(21), T::Id(d)], 2 => vec![T::Pre(5), T::Id(c)], 3 => vec![T::Pre(9), T::Id(c)], 4 => vec![T::Id(c), T::Eh, T::Id(d), T::Colon, T::Id(d)], _ => vec![T::Pre(2), T::Id(c), T::Bin(16), T::Id(d)] };
    (source(&t), reference(&t).unwrap())
}
fn statement(_t: u32, c: u32) {
    let n = 1 + c as usize % 3;
    let (mut src, mut want) = (vec![], vec![]);
    let mut i = 0;
    while i < n {
        let (s, w) = if i == 0 || n < 3 { simple(b'a' + 2 * i as u8, b'b' + 2 * i as u8) } else { let mut o = vec![]; ident(&mut o, b'a' + 2 * i as u8); (vec![b'a' + 2 * i as u8], o) };
        let not = choose(2) == 1;
        let (s, w) = if not { (cat(&[b"not ", &s]), cat(&[b"(send recv=", &w, b" method_name=\"!\" args=[])"])) } else { (s, w) };
        if i == 0 { src = s; want = w; } else {
            let and = choose(2) == 1;
            src = cat(&[&src, if and { b" and " } else { b" or " }, &s]);
            want = cat(&[if and { b"(and lhs=" } else { b"(or lhs=" }, &want, b" rhs=", &w, b")"]);
        }
        i += 1;
    }
    let m = c as usize / 3;
    let m2 = choose(3);
    let mods = [m, [0, 1, 3][m2]];
    for (j, m) in mods.iter().enumerate() {
        if *m == 0 { continue; }
        let id = b'p' + j as u8;
        let mut g = vec![];
        ident(&mut g, id);
        // rescue binds tighter than an assignment: `x = a rescue b`
        if MODS[*m] == "rescue" && (crate::p_inv::starts_in(&src, b"x = ")) { lrsym_discard(); }
        src = cat(&[&src, b" ", MODS[*m].as_bytes(), b" ", &[id]]);
        want = match MODS[*m] {
            "if" => cat(&[b"(if_mod cond=", &g, b" if_true=", &want, b")"]),
            "unless" => cat(&[b"(if_mod cond=", &g, b" if_false=", &want, b")"]),
            "while" => cat(&[b"(while cond=", &g, b" body=", &want, b")"]),
            "until" => cat(&[b"(until cond=", &g, b" body=", &want, b")"]),
            _ => cat(&[b"(rescue body=", &want, b" rescue_bodies=[(rescue_body body=", &g, b")])"]),
        };
    }
    compare(src, Some(want));
}
// ---- conditions ---------------------------------------------------------------------------------
const CONDPLACE: &[(&[u8], &[u8], &[u8], &[u8])] = &[
    (b"if ", b" then z end", b"(if cond=", b" if_true=(send method_name=\"z\" args=[]))"),
    (b"unless ", b"\nz end", b"(if cond=", b" if_false=(send method_name=\"z\" args=[]))"),
    (b"while ", b" do z end", b"(while cond=", b" body=(send method_name=\"z\" args=[]))"),
    (b"until ", b"\nz end", b"(until cond=", b" body=(send method_name=\"z\" args=[]))"),
    (b"z if ", b"", b"(if_mod cond=", b" if_true=(send method_name=\"z\" args=[]))"),
    (b"z unless ", b"", b"(if_mod cond=", b" if_false=(send method_name=\"z\" args=[]))"),
    (b"z while ", b"", b"(while cond=", b" body=(send method_name=\"z\" args=[]))"),
    (b"z until ", b"", b"(until cond=", b" body=(send method_name=\"z\" args=[]))"),
    (b"(", b") ? z : z", b"(if_ternary cond=(begin statements=[", b"]) if_true=(send method_name=\"z\" args=[]) if_false=(send method_name=\"z\" args=[]))"),
    (b"!(", b")", b"(send recv=(begin statements=[", b"]) method_name=\"!\" args=[])"),
    (b"if a; elsif ", b" then z end", b"(if cond=(send method_name=\"a\" args=[]) if_false=(if cond=", b" if_true=(send method_name=\"z\" args=[])))"),
    // values: nothing is rewritten
    (b"(", b")", b"(begin statements=[", b"])"),
    (b"[(", b")]", b"(array elements=[(begin statements=[", b"])])"),
];
/// source, tree as a value, tree as a condition
fn cond(d: u32, leaf: &mut u8) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
    let n = choose(if d == 0 { 2 } else { 8 });
    *leaf += 1;
    match n {
        0 => { let mut v = vec![]; ident(&mut v, *leaf); (vec![*leaf], v.clone(), v) }
        1 => { let r = cat(&[b"(regexp parts=[(str value=\"", &[*leaf], b"\")])"]); (cat(&[b"/", &[*leaf], b"/"]), r.clone(), cat(&[b"(match_current_line re=", &r, b")"])) }
        2 => { let x = cond(d - 1, leaf); (cat(&[b"(", &x.0, b")"]), cat(&[b"(begin statements=[", &x.1, b"])"]), cat(&[b"(begin statements=[", &x.2, b"])"])) }
        3 => { let x = cond(0, leaf); (cat(&[b"!", &x.0]), cat(&[b"(send recv=", &x.2, b" method_name=\"!\" args=[])"]), cat(&[b"(send recv=", &x.2, b" method_name=\"!\" args=[])"])) }
        _ => {
            let (x, y) = (cond(d - 1, leaf), cond(d - 1, leaf));
            let (op, a, b, l, r): (&[u8], &[u8], &[u8], &[u8], &[u8]) = [(b" && ".as_slice(), b"(and".as_slice(), b"(and".as_slice(), b" lhs=".as_slice(), b" rhs=".as_slice()), (b" || ", b"(or", b"(or", b" lhs=", b" rhs="), (b"..", b"(irange", b"(i_flip_flop", b" left=", b" right="), (b"...", b"(erange", b"(e_flip_flop", b" left=", b" right=")][n - 4];
            // operands in parentheses, unless they are names or literals
            let p = |s: &[u8]| s.len() > 3 || s[0] == b'!';
            let w = |s: &[u8], t: &[u8]| if p(s) { cat(&[b"(begin statements=[", t, b"])"]) } else { t.to_vec() };
            let q = |s: &[u8]| if p(s) { cat(&[b"(", s, b")"]) } else { s.to_vec() };
            (cat(&[&q(&x.0), op, &q(&y.0)]), cat(&[a, l, &w(&x.0, &x.1), r, &w(&y.0, &y.1), b")"]), cat(&[b, l, &w(&x.0, &x.2), r, &w(&y.0, &y.2), b")"]))
        }
    }
}
pub fn n_conditions(_t: u32) -> u32 { CONDPLACE.len() as u32 }
pub fn conditions(_t: u32, c: u32) {
    let f = CONDPLACE[c as usize];
    let mut leaf = b'a' - 1;
    let x = cond(2, &mut leaf);
    let src = cat(&[f.0, &x.0, f.1]);
    input(&src);
    let want = cat(&[f.2, if c as usize >= CONDPLACE.len() - 2 { &x.1 } else { &x.2 }, f.3]);
    let r = parse(src);
    let got = dump::ast(&r, false);
    emit(&got);
    check(!dump::has_error(&r), "condition rejected");
    if got != want { note(&want); note(&got); fail("condition parsed wrongly"); }
}
pub static C08: &[Group] = &[
    Group { n: |_| BIN.len() as u32, run: two },
    Group { n: |_| BIN.len() as u32, run: three },
    Group { n: |_| BIN.len() as u32, run: ternary },
    Group { n: |_| PRE.len() as u32 - 1, run: prefixes },
    Group { n: |_| MODS.len() as u32 * 3, run: statement },
    Group { n: n_conditions, run: conditions },
    Group { n: |t| crate::p_long::n_some(crate::p_long::L08, t), run: |t, c| crate::p_long::some(crate::p_long::L08, t, c) },
];
