//! Literals against reference models: C05 strings, C06 numbers.
use crate::ast::{self, F};
use crate::dump;
use crate::props::*;
use crate::refs::{self, Lit, Num};
use crate::rt::*;
use crate::p_generic::{spec, DIAG, SHAPE};
use crate::spec_topics::*;
use lib_ruby_parser::*;

pub fn build(pre: &[u8], n: usize, set: &Set, post: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let mut body = vec![];
    for _ in 0..n { body.push(hole(set)); }
    (cat(&[pre, &body, post]), body)
}
pub fn cat(p: &[&[u8]]) -> Vec<u8> {
    let mut v = vec![];
    for x in p.iter() { v.extend_from_slice(x); }
    v
}
/// all string content below a node, concatenated; None if there is anything but content
pub fn content(n: &Node, out: &mut Vec<u8>) -> bool {
    let mut ok = true;
    match n {
        Node::Str(_) | Node::Sym(_) => ast::fields(n, &mut |_, f| if let F::S(s) = f { out.extend_from_slice(s) }),
        Node::Dstr(_) | Node::Dsym(_) | Node::Xstr(_) | Node::Heredoc(_) | Node::XHeredoc(_) | Node::Regexp(_) =>
            ast::fields(n, &mut |_, f| if let F::L(l) = f { for x in l.iter() { if !content(x, out) { ok = false } } }),
        _ => ok = false,
    }
    ok
}
pub fn lit_check(r: &ParserResult, want: &Lit, kind: &str) {
    match want {
        Lit::Out => lrsym_discard(),
        Lit::Err => check(dump::has_error(r), "malformed escape not reported as an error"),
        Lit::Ok(v) => {
            if dump::has_error(r) { fail("well-formed literal reported as an error"); }
            let a = match &r.ast { Some(a) => &**a, None => fail("literal without a node") };
            let mut got = vec![];
            check(content(a, &mut got), "literal parsed as something else");
            emit(&got);
            if got != *v { note(&got); note(v); fail("literal decodes to other bytes"); }
            check(ast::name(a) == kind || (ast::name(a) == "dstr" && kind == "str"), "literal has another node kind");
        }
    }
}
const ESC: &[&[u8]] = &[b"", b"\\", b"a\\", b"\\M", b"\\M-", b"\\C-", b"\\c", b"\\M-\\", b"\\C-\\", b"\\c\\", b"\\M-\\C-", b"\\M-\\c", b"\\C-\\M-", b"\\c\\M-", b"\\c\\M-\\", b"\\M-\\C-\\", b"\\x", b"\\u", b"\\u{", b"\\u{4", b"\\u{41 ", b"\\u{d", b"\\u{10", b"\\u{10ff", b"\\u{1f6", b"\\u0", b"\\ud7", b"\\ue0", b"\\u{ ", b"\\\r", b"\xc3", b"\\\xc3"];
const ENDS: &[&[u8]] = &[b"", b"}"];
fn nfree(t: u32) -> usize { if t == 0 { 2 } else { 3 } }
/// (opening, closing, terminator, node)
const DQ: &[(&[u8], &[u8], u8, &str)] = &[(b"\"", b"\"", b'"', "str"), (b"`", b"`", b'`', "xstr"), (b":\"", b"\"", b'"', "sym"), (b"%Q|", b"|", b'|', "str")];
fn dq(t: u32, c: u32) {
    let c = c as usize;
    let d = &DQ[c / (ESC.len() * 2)];
    let pre = ESC[c / 2 % ESC.len()];
    let end = ENDS[c % 2];
    let n = if (pre.is_empty() || pre == b"\\") && (d.3 == "str") && end.is_empty() { 3 } else { nfree(t) };
    let mut body = pre.to_vec();
    let k = choose(n + 1);
    for i in 0..n { if i < k { body.push(hole(&Set::any())); } }
    body.extend_from_slice(end);
    let src = cat(&[d.0, &body, d.1]);
    input(&src);
    let want = refs::interpolating(&body, 0, d.2);
    if let (Lit::Ok(v), "sym") = (&want, d.3) {
        if !refs::valid_utf8(v) { let r = parse(src); check(dump::has_error(&r), "symbol with invalid bytes not reported"); return; }
    }
    let r = parse(src);
    if d.3 == "sym" { if let (Lit::Ok(_), Some(a)) = (&want, &r.ast) { if ast::name(a) == "dsym" { return lit_check(&r, &want, "dsym"); } } }
    lit_check(&r, &want, d.3);
}
/// inside of nested brackets, and after other escapes
const BR: &[(&[u8], u8, u8, bool, &str)] = &[(b"%Q", b'(', b')', true, "str"), (b"%", b'{', b'}', true, "str"), (b"%x", b'[', b']', true, "xstr"), (b"%q", b'<', b'>', false, "str"), (b"%s", b'(', b')', false, "sym")];
fn nested(t: u32, c: u32) {
    let c = c as usize;
    let d = &BR[c / ESC.len()];
    let pre = ESC[c % ESC.len()];
    let n = 1 + t as usize;
    let mut body = cat(&[b"a", &[d.1], pre]);
    let k = choose(n + 1);
    for i in 0..n { if i < k { body.push(hole(&Set::any())); } }
    if choose(2) == 1 { body.push(b'}'); }
    body.push(d.2);
    body.extend_from_slice(b" z");
    let src = cat(&[d.0, &[d.1], &body, &[d.2]]);
    input(&src);
    let want = if d.3 { refs::interpolating(&body, d.1, d.2) } else { refs::raw(&body, d.1, d.2) };
    if let (Lit::Ok(v), "sym") = (&want, d.4) { if !refs::valid_utf8(v) { lrsym_discard(); } }
    let r = parse(src);
    if d.4 == "sym" { if let (Lit::Ok(_), Some(a)) = (&want, &r.ast) { if ast::name(a) == "dsym" { return lit_check(&r, &want, "dsym"); } } }
    lit_check(&r, &want, d.4);
}
const ITEM: &[&[u8]] = &[b"\\x41", b"\\x4", b"\\101", b"\\7", b"\\u0041", b"\\u{41 e9}", b"\\n", b"\\\n", b"\n", b"\xc3\xa9", b"#", b"\\#{", b"\\M-a", b"\\C-a", b"\\c?", b"\\M-\\C-a", b"\\\\", b"\\e", b"abcdefghijklmnopqrstuvwxyz0123456789"];
fn sequence(t: u32, c: u32) {
    let c = c as usize;
    let d = &DQ[c % DQ.len()];
    let mut body = ITEM[c / DQ.len()].to_vec();
    match choose(4) { 0 => {} 1 => body.push(b'\\'), 2 => body.extend_from_slice(b"\\x"), _ => body.extend_from_slice(b"\\u00") }
    let n = 2 + t as usize;
    let k = choose(n + 1);
    for i in 0..n { if i < k { body.push(hole(&Set::any())); } }
    let src = cat(&[d.0, &body, d.1]);
    input(&src);
    let want = refs::interpolating(&body, 0, d.2);
    if let (Lit::Ok(v), "sym") = (&want, d.3) { if !refs::valid_utf8(v) { lrsym_discard(); } }
    let r = parse(src);
    if d.3 == "sym" { if let (Lit::Ok(_), Some(a)) = (&want, &r.ast) { if ast::name(a) == "dsym" { return lit_check(&r, &want, "dsym"); } } }
    lit_check(&r, &want, d.3);
}
const SQ: &[(&[u8], &[u8], u8, &str)] = &[(b"'", b"'", b'\'', "str"), (b":'", b"'", b'\'', "sym"), (b"%q|", b"|", b'|', "str"), (b"%s|", b"|", b'|', "sym")];
const SQPRE: &[&[u8]] = &[b"", b"\\", b"a\\", b"\xc3", b"\\\xc3"];
fn sq(t: u32, c: u32) {
    let d = &SQ[c as usize / SQPRE.len()];
    let pre = SQPRE[c as usize % SQPRE.len()];
    let n = if t == 0 { 2 } else { 3 };
    let mut body = pre.to_vec();
    let k = choose(n + 1);
    for i in 0..n { if i < k { body.push(hole(&Set::any())); } }
    let src = cat(&[d.0, &body, d.1]);
    input(&src);
    let want = refs::raw(&body, 0, d.2);
    if let (Lit::Ok(v), "sym") = (&want, d.3) {
        if !refs::valid_utf8(v) { let r = parse(src); check(dump::has_error(&r), "symbol with invalid bytes not reported"); return; }
    }
    let r = parse(src);
    if d.3 == "sym" { if let (Lit::Ok(_), Some(a)) = (&want, &r.ast) { if ast::name(a) == "dsym" { return lit_check(&r, &want, "dsym"); } } }
    lit_check(&r, &want, d.3);
}
fn qm(t: u32, c: u32) {
    let pre = ESC[c as usize];
    if pre == b"a\\" || pre == b"\\\r" || pre == b"\xc3" || pre == b"\\\xc3" { return; }
    let n = nfree(t);
    let mut body = pre.to_vec();
    let k = choose(n + 1);
    for i in 0..n { if i < k { body.push(hole(&Set::any())); } }
    if choose(2) == 1 { body.push(b'}'); }
    let src = cat(&[b"?", &body]);
    input(&src);
    let want = refs::character(&body);
    lit_check(&parse(src), &want, "str");
}
/// four to six hex digits and blanks in \u{...}
fn uni(_t: u32, c: u32) {
    const U: Set = Set::of(b"01 dD9fF}");
    let n = 3 + c as usize;
    let (src, _) = build(b"\"\\u{", n, &U, b"}\"");
    input(&src);
    let want = refs::interpolating(&src[1..src.len() - 1], 0, b'"');
    lit_check(&parse(src), &want, "str");
}
/// more digits than a code point has
fn uni_long(_t: u32, c: u32) {
    let n = 6 + c as usize / 2;
    let (src, _) = build(b"\"\\u{", n, &Set::of(b"01}"), if c % 2 == 0 { b"}\"" } else { b" 61}\"" });
    input(&src);
    let want = refs::interpolating(&src[1..src.len() - 1], 0, b'"');
    lit_check(&parse(src), &want, "str");
}
pub static C05: &[Group] = &[
    Group { n: |_| (DQ.len() * ESC.len() * 2) as u32, run: dq },
    Group { n: |_| (SQ.len() * SQPRE.len()) as u32, run: sq },
    Group { n: |_| ESC.len() as u32, run: qm },
    Group { n: |t| 3 + t, run: uni },
    Group { n: |_| 6, run: uni_long },
    Group { n: |_| (BR.len() * ESC.len()) as u32, run: nested },
    Group { n: |_| (ITEM.len() * DQ.len()) as u32, run: sequence },
    Group { n: |_| STRINGS.len() as u32, run: |_, c| spec(&STRINGS[c as usize], SHAPE | DIAG) },
    Group { n: |t| crate::p_long::n_some(crate::p_long::L05, t), run: |t, c| crate::p_long::some(crate::p_long::L05, t, c) },
];

// ---- C06 -----------------------------------------------------------------------------------
const NUMA: Set = Set::of(b"0123456789_.eE+-xXbBoOdDriRIaAfF");
const NUMB: Set = Set::of(b"0189_.eExbodri+-f");
const PREFIX: &[&[u8]] = &[b"", b"0", b"0x", b"0b", b"0o", b"0d", b"1_", b"1.", b"1.5", b"1e", b"1.5e", b"1e-", b"0_", b"1r", b"1.0", b"12345678", b"0X", b"0B", b"0O", b"0D", b"9_0.0_1e+1_", b"3E"];
fn num(t: u32, c: u32) {
    let pre = PREFIX[c as usize / 3];
    let sign: &[u8] = [b"".as_slice(), b"-", b"+"][c as usize % 3];
    let mut s = pre.to_vec();
    let (n, set) = if t == 0 { (4, &NUMA) } else { (5, &NUMB) };
    let k = choose(n + 1);
    for i in 0..n { if i < k { s.push(hole(set)); } }
    if s.is_empty() || !refs::is_digit(s[0]) { lrsym_discard(); }
    let src = cat(&[sign, &s]);
    input(&src);
    match refs::number(&s) {
        Err(()) => check(dump::has_error(&parse(src)), "malformed number accepted"),
        Ok((kind, len)) => {
            if len < s.len() {
                // something else follows: an error unless it is an operator or a method call
                let rest = &s[len..];
                let kw = rest.starts_with(b"if") || rest.starts_with(b"or") || rest.starts_with(b"do");
                if kw && (rest.len() == 2 || !refs::is_ident(rest[2])) { lrsym_discard(); }
                if refs::is_ident(s[len]) { check(dump::has_error(&parse(src)), "malformed number accepted"); return; }
                lrsym_discard();
            }
            let want = src.clone();
            let r = parse(src);
            check(!dump::has_error(&r), "well-formed number rejected");
            check(r.diagnostics.is_empty(), "diagnostic for a well-formed number");
            let a = match &r.ast { Some(a) => &**a, None => fail("number without a node") };
            let name = match kind { Num::Int => "int", Num::Float => "float", Num::Rational => "rational", Num::Complex => "complex" };
            check(ast::name(a) == name, "number has another type");
            let mut val = vec![];
            let mut loc = Loc { begin: 9, end: 9 };
            let mut op = None;
            ast::fields(a, &mut |n, f| match f { F::S(s) => val = s.to_vec(), F::Loc(l) => if n == "expression_l" { loc = l }, F::MLoc(l) => if n == "operator_l" { op = l }, _ => {} });
            emit(&val);
            check(val == want, "number has another value");
            check(loc.begin == 0 && loc.end == want.len(), "number does not cover its source");
            if sign == b"-" { check(op.map(|l| l.begin == 0 && l.end == 1).unwrap_or(false), "sign of a number not located"); }
        }
    }
}
pub static C06: &[Group] = &[
    Group { n: |_| 3 * PREFIX.len() as u32, run: num },
    Group { n: |_| NUMBERS.len() as u32, run: |_, c| spec(&NUMBERS[c as usize], SHAPE | DIAG) },
    Group { n: |t| crate::p_long::n_some(crate::p_long::L06, t), run: |t, c| crate::p_long::some(crate::p_long::L06, t, c) },
];
