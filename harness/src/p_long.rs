//! Long programs: names, literals, lists, lines and nesting beyond the sizes at which a counter
//! could wrap. Each kind of program is built together with the tree it must give.
use crate::dump;
use crate::p_lex::cat;
use crate::props::*;
use crate::rt::*;
use lib_ruby_parser::*;

const SIZES: &[usize] = &[65, 257, 1025, 4097];
pub const KINDS: usize = 52;
/// kinds whose cost grows faster than their size: not beyond the second size
fn heavy(k: usize) -> bool { matches!(k, 19 | 24..=26 | 37 | 38 | 41) }
const LETTER: Set = Set::range(b'p', b'z');
/// what a program must give
pub enum Want { Tree(Vec<u8>), Error, Any }
use Want::*;
fn rep(b: u8, n: usize) -> Vec<u8> { let mut v = Vec::with_capacity(n); let mut i = 0; while i < n { v.push(b); i += 1; } v }
fn reps(s: &[u8], n: usize) -> Vec<u8> { let mut v = Vec::with_capacity(n * s.len()); let mut i = 0; while i < n { v.extend_from_slice(s); i += 1; } v }
/// s once per number 0..n, with byte 1 standing for the number
fn each(s: &[u8], n: usize, sep: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(n * (s.len() + 3));
    let mut i = 0;
    while i < n {
        if i > 0 { v.extend_from_slice(sep); }
        for b in s.iter() { if *b == 1 { dump::num(&mut v, i) } else { v.push(*b) } }
        i += 1;
    }
    v
}
const A: &[u8] = b"(send method_name=\"a\" args=[])";
pub fn make(k: usize, n: usize) -> (Vec<u8>, Want) {
    let h = hole(&LETTER);
    let w = cat(&[&rep(b'a', n), &[h]]);
    let named = |s: Vec<u8>, open: &[u8], name: &[u8]| (s, Tree(cat(&[open, b"=\"", name, b"\")"])));
    match k {
        // strings, symbols and regexps
        0 => named(cat(&[b"\"", &w, b"\""]), b"(str value", &w),
        1 => named(cat(&[b"'", &w, b"'"]), b"(str value", &w),
        2 => named(cat(&[b":", &w]), b"(sym name", &w),
        3 => named(cat(&[b":\"", &w, b"\""]), b"(sym name", &w),
        4 => (cat(&[b"`", &w, b"`"]), Tree(cat(&[b"(xstr parts=[(str value=\"", &w, b"\")])"]))),
        5 => (cat(&[b"/", &w, b"/"]), Tree(cat(&[b"(regexp parts=[(str value=\"", &w, b"\")])"]))),
        // numbers
        6 => { let d = rep(b'7', n); named(d.clone(), b"(int value", &d) }
        7 => { let d = cat(&[&rep(b'7', n), b".", &rep(b'5', n)]); named(d.clone(), b"(float value", &d) }
        8 => { let d = cat(&[b"0x", &rep(b'f', n)]); named(d.clone(), b"(int value", &d) }
        // names
        9 => (w.clone(), Tree(cat(&[b"(send method_name=\"", &w, b"\" args=[])"]))),
        10 => { let w = cat(&[b"A", &w]); named(w.clone(), b"(const name", &w) }
        11 => { let w = cat(&[b"@", &w]); named(w.clone(), b"(ivar name", &w) }
        12 => { let w = cat(&[b"@@", &w]); named(w.clone(), b"(cvar name", &w) }
        13 => { let w = cat(&[b"$", &w]); named(w.clone(), b"(gvar name", &w) }
        14 => { let w = cat(&[&w, b"?"]); (w.clone(), Tree(cat(&[b"(send method_name=\"", &w, b"\" args=[])"]))) }
        15 => (cat(&[b"{", &w, b": 1}"]), Tree(cat(&[b"(hash pairs=[(pair key=(sym name=\"", &w, b"\") value=(int value=\"1\"))])"]))),
        16 => (cat(&[b"def ", &w, b"; end"]), Tree(cat(&[b"(def name=\"", &w, b"\")"]))),
        // lists
        17 => (cat(&[b"[", &each(b"\x01", n, b","), b"]"]), Tree(cat(&[b"(array elements=[", &each(b"(int value=\"\x01\")", n, b" "), b"])"]))),
        18 => (cat(&[b"a(", &each(b"\x01", n, b", "), b")"]), Tree(cat(&[b"(send method_name=\"a\" args=[", &each(b"(int value=\"\x01\")", n, b" "), b"])"]))),
        19 => (cat(&[b"{", &each(b"\x01=>\x01", n, b","), b"}"]), Tree(cat(&[b"(hash pairs=[", &each(b"(pair key=(int value=\"\x01\") value=(int value=\"\x01\"))", n, b" "), b"])"]))),
        20 => (each(b"a\x01", n, b"\n"), Tree(cat(&[b"(begin statements=[", &each(b"(send method_name=\"a\x01\" args=[])", n, b" "), b"])"]))),
        21 => (cat(&[b"def m(", &each(b"a\x01", n, b","), b"); end"]), Tree(cat(&[b"(def name=\"m\" args=(args args=[", &each(b"(arg name=\"a\x01\")", n, b" "), b"]))"]))),
        22 => (cat(&[b"case a\nwhen ", &each(b"\x01", n, b","), b" then a\nend"]), Tree(cat(&[b"(case expr=", A, b" when_bodies=[(when patterns=[", &each(b"(int value=\"\x01\")", n, b" "), b"] body=", A, b")])"]))),
        23 => (cat(&[b"%w[", &each(b"a\x01", n, b" "), b"]"]), Tree(cat(&[b"(array elements=[", &each(b"(str value=\"a\x01\")", n, b" "), b"])"]))),
        24 => { let t = cat(&[&rep(b'(', n), &[h], &rep(b')', n)]); named(cat(&[b"%q(", &t, b")"]), b"(str value", &t) }
        // operators and calls
        25 => (cat(&[b"a", &reps(b"-a", n)]), Tree(cat(&[&reps(b"(send recv=", n), A, &reps(&cat(&[b" method_name=\"-\" args=[", A, b"])"]), n)]))),
        26 => (cat(&[b"a", &reps(b".b", n)]), Tree(cat(&[&reps(b"(send recv=", n), A, &reps(b" method_name=\"b\" args=[])", n)]))),
        // layout
        27 => (cat(&[&rep(b'\n', n), b"a"]), Tree(A.to_vec())),
        28 => (cat(&[&rep(b' ', n), b"a", &rep(b' ', n), b".b", &rep(b' ', n)]), Tree(cat(&[b"(send recv=", A, b" method_name=\"b\" args=[])"]))),
        29 => (cat(&[&each(b"# c\x01\n", n, b""), b"a"]), Tree(A.to_vec())),
        30 => (cat(&[b"a # ", &w, b"\n.b"]), Tree(cat(&[b"(send recv=", A, b" method_name=\"b\" args=[])"]))),
        // heredocs
        31 => (cat(&[b"<<", &w, b"\nx\n", &w, b"\n"]), Tree(b"(heredoc parts=[(str value=\"x\n\")])".to_vec())),
        32 => (cat(&[b"<<'A'\n", &each(b"b\x01\n", n, b""), b"A\n"]), Tree(cat(&[b"(heredoc parts=[(str value=\"", &each(b"b\x01\n", n, b""), b"\")])"]))),
        33 => (cat(&[b"<<A\n", &w, b"\nA\n"]), Tree(cat(&[b"(heredoc parts=[(str value=\"", &w, b"\n\")])"]))),
        34 => (cat(&[b"<<~A\n", &rep(b' ', n), b"x\n", &rep(b' ', n), b" y\nA\n"]), Tree(b"(heredoc parts=[(str value=\"x\n\") (str value=\" y\n\")])".to_vec())),
        // variables
        35 => (cat(&[&each(b"v\x01 = 1\n", n, b""), b"v0\nv", &{ let mut d = vec![]; dump::num(&mut d, n - 1); d }, b"\nv", &{ let mut d = vec![]; dump::num(&mut d, n); d }]), Tree(cat(&[b"(begin statements=[", &each(b"(lvasgn name=\"v\x01\" value=(int value=\"1\"))", n, b" "), b" (lvar name=\"v0\") (lvar name=\"v", &{ let mut d = vec![]; dump::num(&mut d, n - 1); d }, b"\") (send method_name=\"v", &{ let mut d = vec![]; dump::num(&mut d, n); d }, b"\" args=[])])"]))),
        36 => (cat(&[b"\"", &reps(b"x#{a}", n), b"\""]), Tree(cat(&[b"(dstr parts=[", &{ let mut v = vec![]; let mut i = 0; while i < n { if i > 0 { v.push(b' ') } v.extend_from_slice(&cat(&[b"(str value=\"x\") (begin statements=[", A, b"])"])); i += 1; } v }, b"])"]))),
        37 => { let n = n.min(100); (cat(&[b"if a\na\n", &reps(b"elsif a\na\n", n), b"end"]), Tree(cat(&[&reps(&cat(&[b"(if cond=", A, b" if_true=", A, b" if_false="]), n), b"(if cond=", A, b" if_true=", A, b")", &rep(b')', n)]))) }
        38 => { let n = n.min(200); (cat(&[&rep(b'[', n), &rep(b']', n)]), Tree(cat(&[&reps(b"(array elements=[", n), &reps(b"])", n)]))) }
        // broken programs
        39 => (cat(&[&rep(b'\n', n), b"foo("]), Error),
        40 => (cat(&[&rep(b' ', n), b"foo )"]), Error),
        41 => (cat(&[b"def m(", &each(b"a\x01", n, b","), b",a0); end"]), Error),
        42 => (cat(&[b"\"", &w]), Error),
        43 => (cat(&[b"<<", &w, b"\n", &w, b"a\n"]), Error),
        // the end of the program
        44 => (cat(&[b"a\n__END__\n", &reps(b"(\n", n)]), Tree(A.to_vec())),
        45 => (cat(&[b"=begin\n", &reps(b"(\n", n), b"=end\na"]), Tree(A.to_vec())),
        46 => (cat(&[b"a\n", &rep(b'\n', n), b".b"]), Any),
        // scopes
        47 => { let n = n.min(40); (cat(&[b"v = 1\n", &reps(b"a { ", n), b"v", &reps(b" }", n)]), Any) }
        48 => { let n = n.min(40); (cat(&[&reps(b"a(", n), b"b do end", &rep(b')', n)]), Any) }
        49 => (cat(&[b"a", &each(b"; b\x01", n, b"")]), Any),
        50 => (cat(&[b"a = ", &reps(b"a = ", n.min(200)), b"1"]), Any),
        _ => (cat(&[b"# encoding: ", &w, b"\na"]), Any),
    }
}
pub fn n(t: u32) -> u32 { KINDS as u32 * if t == 0 { 3 } else { SIZES.len() as u32 } }
fn case(c: u32) -> (usize, Vec<u8>, Want) {
    let (k, i) = (c as usize % KINDS, c as usize / KINDS);
    if i > 1 && heavy(k) { lrsym_discard(); }
    let (s, w) = make(k, SIZES[i]);
    input(&s);
    (k, s, w)
}
/// names an encoding: the decoder is used
pub fn encoding(c: u32) -> bool { c as usize % KINDS == 51 }
pub fn source(c: u32) -> Vec<u8> { case(c).1 }
fn judge(v: Vec<u8>, w: Want) {
    let r = parse(v);
    let got = dump::ast(&r, false);
    emit(&got);
    match w {
        Tree(want) => {
            check(!dump::has_error(&r), "a long program is rejected");
            if got != want { note(&got); note(&want); fail("a long program gives another tree"); }
        }
        Error => check(dump::has_error(&r), "a long broken program is accepted"),
        Any => {}
    }
}
/// all kinds
pub fn shape(_t: u32, c: u32) { let (_, v, w) = case(c); judge(v, w) }
/// the kinds of one property
pub fn some(ks: &[usize], _t: u32, c: u32) {
    let i = c as usize / ks.len();
    let k = ks[c as usize % ks.len()];
    if i > 1 && heavy(k) { lrsym_discard(); }
    let (v, w) = make(k, SIZES[i]);
    input(&v);
    judge(v, w)
}
pub fn n_some(ks: &[usize], t: u32) -> u32 { ks.len() as u32 * if t == 0 { 3 } else { SIZES.len() as u32 } }
pub const L05: &[usize] = &[0, 1, 2, 3, 4, 36, 42];
pub const L06: &[usize] = &[6, 7, 8];
pub const L07: &[usize] = &[35];
pub const L08: &[usize] = &[25, 26];
pub const L09: &[usize] = &[31, 32, 33, 34, 43];
pub const L13: &[usize] = &[21, 41, 39];
pub const L15: &[usize] = &[27, 28, 29, 30];
pub const L16: &[usize] = &[44, 45];
pub const L17: &[usize] = &[2, 9, 10, 11, 12, 13, 14, 15, 16];
pub const L18: &[usize] = &[23, 24];
pub const L19: &[usize] = &[5];
