//! C17: words are classified by their spelling.
use crate::ast::{self, F};
use crate::dump;
use crate::p_generic::{spec, DIAG, SHAPE};
use crate::p_lex::cat;
use crate::p_inv::starts_in;
use crate::props::*;
use crate::refs;
use crate::rt::*;
use crate::spec_topics::*;
use lib_ruby_parser::*;

const KW: &[&[u8]] = &[b"__ENCODING__", b"__LINE__", b"__FILE__", b"BEGIN", b"END", b"alias", b"and", b"begin", b"break", b"case", b"class", b"def", b"defined?", b"do", b"else", b"elsif", b"end", b"ensure", b"false", b"for", b"if", b"in", b"module", b"next", b"nil", b"not", b"or", b"redo", b"rescue", b"retry", b"return", b"self", b"super", b"then", b"true", b"undef", b"unless", b"until", b"when", b"while", b"yield"];
fn reserved(w: &[u8]) -> bool { let mut i = 0; while i < KW.len() { if KW[i] == w { return true; } i += 1; } false }
const IDC: Set = Set::of(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_");
const IDS: Set = Set::of(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_");
fn upper(c: u8) -> bool { c >= b'A' && c <= b'Z' }
/// node kind and name of the only node with a name
fn named(n: &Node) -> (&'static str, Vec<u8>) {
    let mut o = vec![];
    ast::fields(n, &mut |k, f| if k == "name" || k == "method_name" { if let F::S(s) | F::MS(Some(s)) = f { o = s.to_vec() } });
    (ast::name(n), o)
}
fn tree(r: &ParserResult) -> &Node { match &r.ast { Some(a) => &**a, None => fail("no tree") } }
fn expect(src: Vec<u8>, want: &[u8]) {
    input(&src);
    let r = parse(src);
    let got = dump::ast(&r, false);
    emit(&got);
    if dump::has_error(&r) { fail("name rejected"); }
    if got != want { note(&got); note(want); fail("name classified differently"); }
}
/// does a node of the tree carry the word as its name
fn mentions(n: &Node, w: &[u8]) -> bool {
    let mut y = named(n).1 == w;
    ast::fields(n, &mut |_, f| match f { F::N(x) | F::M(Some(x)) => if mentions(x, w) { y = true }, F::L(l) => for x in l.iter() { if mentions(x, w) { y = true } }, _ => {} });
    y
}
const POS: u32 = 28;
/// the word `w` (letters, digits and underscores) at position `p`
fn word(w: &[u8], p: u32) {
    if w.is_empty() || refs::is_digit(w[0]) { lrsym_discard(); }
    // `_1` names a numbered parameter: see C13
    if w.len() == 2 && w[0] == b'_' && w[1] >= b'1' && w[1] <= b'9' && (p == 4 || p == 5 || p == 18 || p == 21 || p == 25) { lrsym_discard(); }
    let kw = reserved(w);
    let up = upper(w[0]);
    let ident: Vec<u8> = if up { cat(&[b"(const name=\"", w, b"\")"]) } else { cat(&[b"(send method_name=\"", w, b"\" args=[])"]) };
    match p {
        0 => { // alone
            let src = w.to_vec();
            if !kw { return expect(src, &ident); }
            input(&src);
            let r = parse(src);
            if let Some(a) = &r.ast { check(!mentions(a, w), "keyword taken for a name"); }
            let fixed: &[u8] = match w { b"nil" => b"(nil)", b"true" => b"(true)", b"false" => b"(false)", b"self" => b"(self_)", b"__FILE__" => b"(file)", b"__LINE__" => b"(line)", b"__ENCODING__" => b"(encoding)", b"redo" => b"(redo)", b"retry" => b"(retry)", b"super" => b"(z_super)", b"yield" => b"(yield args=[])", b"return" => b"(return args=[])", b"break" => b"(break args=[])", b"next" => b"(next args=[])", _ => b"" };
            if fixed.is_empty() { check(dump::has_error(&r), "keyword alone accepted as a program"); }
            else { check(dump::ast(&r, false) == fixed, "keyword gives another node"); }
        }
        1 => expect(cat(&[b"a.", w]), &cat(&[b"(send recv=(send method_name=\"a\" args=[]) method_name=\"", w, b"\" args=[])"])),
        2 => expect(cat(&[b"a&.", w]), &cat(&[b"(c_send recv=(send method_name=\"a\" args=[]) method_name=\"", w, b"\" args=[])"])),
        3 => expect(cat(&[b"a::", w]), &if up { cat(&[b"(const scope=(send method_name=\"a\" args=[]) name=\"", w, b"\")"]) } else { cat(&[b"(send recv=(send method_name=\"a\" args=[]) method_name=\"", w, b"\" args=[])"]) }),
        4 => expect(cat(&[b"def ", w, b"; end"]), &cat(&[b"(def name=\"", w, b"\")"])),
        5 => expect(cat(&[b"def self.", w, b"; end"]), &cat(&[b"(defs definee=(self_) name=\"", w, b"\")"])),
        6 => expect(cat(&[b":", w]), &cat(&[b"(sym name=\"", w, b"\")"])),
        7 => expect(cat(&[b"{", w, b": 1}"]), &cat(&[b"(hash pairs=[(pair key=(sym name=\"", w, b"\") value=(int value=\"1\"))])"])),
        8 => expect(cat(&[b"p(", w, b": 1)"]), &cat(&[b"(send method_name=\"p\" args=[(kwargs pairs=[(pair key=(sym name=\"", w, b"\") value=(int value=\"1\"))])])"])),
        9 => expect(cat(&[b"alias ", w, b" a"]), &cat(&[b"(alias to=(sym name=\"", w, b"\") from=(sym name=\"a\"))"])),
        10 => expect(cat(&[b"undef ", w]), &cat(&[b"(undef names=[(sym name=\"", w, b"\")])"])),
        11 => expect(cat(&[b"@", w]), &cat(&[b"(ivar name=\"@", w, b"\")"])),
        12 => expect(cat(&[b"@@", w]), &cat(&[b"(cvar name=\"@@", w, b"\")"])),
        13 => expect(cat(&[b"$", w]), &cat(&[b"(gvar name=\"$", w, b"\")"])),
        14 => expect(cat(&[b"a.", w, b" = 1"]), &cat(&[b"(send recv=(send method_name=\"a\" args=[]) method_name=\"", w, b"=\" args=[(int value=\"1\")])"])),
        15 => expect(cat(&[b"def ", w, b"=(a); end"]), &cat(&[b"(def name=\"", w, b"=\" args=(args args=[(arg name=\"a\")]))"])),
        16 => expect(cat(&[b":", w, b"="]), &cat(&[b"(sym name=\"", w, b"=\")"])),
        17 => { // ?, !
            let s = [b'?', b'!'][choose(2)];
            let n = cat(&[w, &[s]]);
            if n == b"defined?" { lrsym_discard(); }
            match choose(6) {
                0 => expect(n.clone(), &cat(&[b"(send method_name=\"", &n, b"\" args=[])"])),
                1 => expect(cat(&[b"a.", &n]), &cat(&[b"(send recv=(send method_name=\"a\" args=[]) method_name=\"", &n, b"\" args=[])"])),
                2 => expect(cat(&[b"def ", &n, b"; end"]), &cat(&[b"(def name=\"", &n, b"\")"])),
                3 => expect(cat(&[b":", &n]), &cat(&[b"(sym name=\"", &n, b"\")"])),
                4 => expect(cat(&[b"{", &n, b": 1}"]), &cat(&[b"(hash pairs=[(pair key=(sym name=\"", &n, b"\") value=(int value=\"1\"))])"])),
                _ => expect(cat(&[&n, b" 1"]), &cat(&[b"(send method_name=\"", &n, b"\" args=[(int value=\"1\")])"])),
            }
        }
        18 => { // assignment
            let src = cat(&[w, b" = 1"]);
            if !kw { return expect(src, &cat(&[if up { b"(casgn name=\"" } else { b"(lvasgn name=\"" }, w, b"\" value=(int value=\"1\"))"])); }
            input(&src);
            check(dump::has_error(&parse(src)), "assignment to a keyword accepted");
        }
        19 => { // call with parentheses
            if kw { lrsym_discard(); }
            expect(cat(&[w, b"(1)"]), &cat(&[b"(send method_name=\"", w, b"\" args=[(int value=\"1\")])"]))
        }
        20 => { // command call
            if kw { lrsym_discard(); }
            expect(cat(&[w, b" 1"]), &cat(&[b"(send method_name=\"", w, b"\" args=[(int value=\"1\")])"]))
        }
        21 => { // parameter and its use
            if kw || up { let src = cat(&[b"->(", w, b") {}"]); input(&src); return check(dump::has_error(&parse(src)), "keyword or constant accepted as a parameter"); }
            expect(cat(&[b"->(", w, b") { ", w, b" }"]), &cat(&[b"(block call=(lambda) args=(args args=[(arg name=\"", w, b"\")]) body=(lvar name=\"", w, b"\"))"]))
        }
        22 => { // scope
            if !up || kw { lrsym_discard(); }
            expect(cat(&[b"::", w]), &cat(&[b"(const scope=(cbase) name=\"", w, b"\")"]))
        }
        23 => { // class name
            let src = cat(&[b"class ", w, b"; end"]);
            if !up || kw { input(&src); return check(dump::has_error(&parse(src)), "class name that is no constant accepted"); }
            expect(src, &cat(&[b"(class name=(const name=\"", w, b"\"))"]))
        }
        24 => { // in an expression between others
            if kw { lrsym_discard(); }
            expect(cat(&[b"[1, ", w, b"]"]), &cat(&[b"(array elements=[(int value=\"1\") ", &ident, b"])"]))
        }
        25 => { // keyword parameter
            if kw || up { lrsym_discard(); }
            expect(cat(&[b"def m(", w, b":) ", w, b" end"]), &cat(&[b"(def name=\"m\" args=(args args=[(kwarg name=\"", w, b"\")]) body=(lvar name=\"", w, b"\"))"]))
        }
        26 => expect(cat(&[b"%i[", w, b"]"]), &cat(&[b"(array elements=[(sym name=\"", w, b"\")])"])),
        _ => { // reserved_word itself
            let r = reserved_word_of(w);
            check(r == kw, "reserved_word disagrees with the language");
            emit_n(r as usize);
        }
    }
}
fn reserved_word_of(w: &[u8]) -> bool { lib_ruby_parser::reserved_word(w).is_some() }
/// near misses of reserved words
fn near(t: u32, c: u32) {
    let k = KW[c as usize / POS as usize];
    let p = c % POS;
    let k = if k == b"defined?" { b"defined" } else { k };
    let mut w = k.to_vec();
    match choose(3) {
        0 => { if choose(2) == 1 { w.pop(); } }
        1 => { let i = choose(w.len()); w[i] = hole(if i == 0 { &IDS } else { &IDC }); }
        _ => { w.push(hole(&IDC)); if t > 0 { w.push(hole(&IDC)); } }
    }
    word(&w, p);
}
/// arbitrary words
fn any(t: u32, c: u32) {
    let n = 1 + choose(if t == 0 { 3 } else { 4 });
    let mut w = vec![hole(&IDS)];
    for i in 1..4 { if i < n { w.push(hole(&IDC)); } }
    word(&w, c);
}
/// two-byte letters: Latin-1 supplement (U+00C0..U+00FF) at the start or later
fn latin(_t: u32, c: u32) {
    const CONT: Set = Set::of(b"\x80\x89\x96\x98\x9e\x9f\xa0\xa9\xb6\xb8\xbf");
    let x = hole(&CONT);
    let first = choose(2) == 0;
    let w = if first { cat(&[b"\xc3", &[x], b"a"]) } else { cat(&[b"a\xc3", &[x]]) };
    // U+00C0..U+00DE except U+00D7 are upper case
    let up = first && x < 0x9f;
    let ident = |w: &[u8]| if up { cat(&[b"(const name=\"", w, b"\")"]) } else { cat(&[b"(send method_name=\"", w, b"\" args=[])"]) };
    match c {
        0 => expect(w.clone(), &ident(&w)),
        1 => expect(cat(&[b"@", &w]), &cat(&[b"(ivar name=\"@", &w, b"\")"])),
        2 => expect(cat(&[b"$", &w]), &cat(&[b"(gvar name=\"$", &w, b"\")"])),
        3 => expect(cat(&[b"a.", &w]), &cat(&[b"(send recv=(send method_name=\"a\" args=[]) method_name=\"", &w, b"\" args=[])"])),
        4 => expect(cat(&[&w, b" = 1"]), &cat(&[if up { b"(casgn name=\"" } else { b"(lvasgn name=\"" }, &w, b"\" value=(int value=\"1\"))"])),
        _ => expect(cat(&[b"def ", &w, b"; end"]), &cat(&[b"(def name=\"", &w, b"\")"])),
    }
}
/// letters of two to four bytes: (first bytes, last byte, upper or title case)
const LETTERS: &[(&[u8], &[u8], bool)] = &[
    (b"\xd0", b"\x80\x8f\x90\xaf", true), (b"\xd0", b"\xb0\xbf", false), (b"\xd1", b"\x80\x8f\x9f", false), // Cyrillic
    (b"\xce", b"\x91\xa1\xa3\xa9", true), (b"\xce", b"\xb1\xbf", false), // Greek
    (b"\xc4", b"\x80\xb0", true), (b"\xc4", b"\x81\xb1\xb8", false), // Latin extended
    (b"\xc7", b"\x85\x88\x8b\xb2", true), (b"\xc7", b"\x86\x89\x8c\xb3", false), // title case digraphs
    (b"\xe1\xbe", b"\x88\x8f\x98\x9f\xa8\xaf\xbc", true), (b"\xe1\xbe", b"\x80\x90\xa0\xb3", false), // Greek title case
    (b"\xef\xbc", b"\xa1\xba", true), (b"\xef\xbd", b"\x81\x9a", false), // full width
    (b"\xe2\x85", b"\xa0\xa7", true), (b"\xe2\x85", b"\xb0\xb7", false), // Roman numerals
    (b"\xe4\xb8", b"\x80\xad", false), (b"\xe3\x81", b"\x82\xae", false), (b"\xd7", b"\x90\x91", false), // no case
    (b"\xf0\x90\x90", b"\x80\xa7", true), (b"\xf0\x90\x90", b"\xa8\xbf", false), // Deseret
    (b"\xf0\x9d\x90", b"\x80\x99", true), (b"\xf0\x9d\x90", b"\x9a\xb3", false), // mathematical bold
    (b"\xf0\x9f\x98", b"\x80\xbf", false), // not letters
];
fn script(_t: u32, c: u32) {
    let l = LETTERS[c as usize];
    let i = choose(l.1.len());
    let w = cat(&[l.0, &l.1[i..i + 1]]);
    let up = l.2;
    let w = match choose(3) { 0 => w, 1 => cat(&[&w, b"a1"]), _ => cat(&[&w, l.0, &l.1[i..i + 1]]) };
    let place = choose(11);
    match place {
        0 => expect(w.clone(), &if up { cat(&[b"(const name=\"", &w, b"\")"]) } else { cat(&[b"(send method_name=\"", &w, b"\" args=[])"]) }),
        1 => expect(cat(&[&w, b" = 1"]), &cat(&[if up { b"(casgn name=\"" } else { b"(lvasgn name=\"" }, &w, b"\" value=(int value=\"1\"))"])),
        2 => expect(cat(&[b"@", &w]), &cat(&[b"(ivar name=\"@", &w, b"\")"])),
        3 => expect(cat(&[b"$", &w]), &cat(&[b"(gvar name=\"$", &w, b"\")"])),
        4 => expect(cat(&[b":", &w]), &cat(&[b"(sym name=\"", &w, b"\")"])),
        5 => expect(cat(&[b"{", &w, b": 1}"]), &cat(&[b"(hash pairs=[(pair key=(sym name=\"", &w, b"\") value=(int value=\"1\"))])"])),
        6 => expect(cat(&[b"def a", &w, b"; end"]), &cat(&[b"(def name=\"a", &w, b"\")"])),
        7 => expect(cat(&[b"{", &w, b":}"]), &cat(&[b"(hash pairs=[(pair key=(sym name=\"", &w, b"\") value=", &if up { cat(&[b"(const name=\"", &w, b"\")"]) } else { cat(&[b"(send method_name=\"", &w, b"\" args=[])"]) }, b")])"])),
        8 | 9 => { // a constant is no name of a parameter or pattern variable
            let src = if place == 8 { cat(&[b"def a(", &w, b": 1); end"]) } else { cat(&[b"case a; in {", &w, b":}; end"]) };
            input(&src);
            let r = parse(src);
            emit_n(r.diagnostics.len());
            check(dump::has_error(&r) == up, "name of a variable classified differently");
        }
        _ => { // only a constant can name a class
            let src = cat(&[b"class ", &w, b"; end"]);
            input(&src);
            let r = parse(src);
            emit_n(r.diagnostics.len());
            check(dump::has_error(&r) != up, "name of a class classified differently");
        }
    }
}
const OPNAME: &[&[u8]] = &[b"+", b"-", b"*", b"/", b"%", b"**", b"==", b"!=", b"===", b"=~", b"!~", b"<=>", b"<", b"<=", b">", b">=", b"<<", b">>", b"&", b"|", b"^", b"!", b"~", b"+@", b"-@", b"[]", b"[]=", b"`",
    b"if", b"unless", b"while", b"do", b"end", b"def", b"class", b"nil", b"self", b"not", b"and", b"return", b"yield", b"super", b"defined?", b"then", b"rescue", b"alias", b"begin", b"BEGIN", b"__FILE__", b"case", b"in"];
/// text before and after the name; what may follow
const FRAME: &[(&[u8], &[&[u8]])] = &[
    (b"a.", AFTER_CALL), (b"a&.", AFTER_CALL), (b"a::", AFTER_CALL),
    (b"def ", AFTER_DEF), (b"def self.", AFTER_DEF), (b"def a.", AFTER_DEF),
    (b":", AFTER_SYM), (b"b :", AFTER_SYM), (b"{a => :", &[b"}", b" }", b", 1 => 2}", b"\n}"]), (b"[:", &[b"]", b" ]", b", 1]", b"\n]"]),
    (b"alias z ", &[b"", b"\nb", b"; b", b" if b", b" #c\nb", b" while b"]), (b"alias ", &[b" z", b" z\nb", b"\tz", b" :z", b" z if b"]),
    (b"undef ", &[b"", b", z", b", :z", b"\nb", b"; b", b" if b", b", z if b"]), (b"undef z, ", &[b"", b", y", b"\nb", b"; b", b" if b", b" while b"]),
];
const AFTER_CALL: &[&[u8]] = &[b"", b" nil", b"(nil)", b" (nil)", b" 1", b" [1]", b" -1", b" - 1", b" *b", b" **b", b" &b", b" & b", b" ::B", b" :b", b" \"b\"", b" 'b'", b" /b/", b" / b", b" %w[b]", b" % b", b" <<B\nB\n", b" ?b", b" ? b : c", b" if b", b" unless b", b" while b", b" rescue b", b" do end", b" { }", b" { |b| b }", b" b: 1", b" \"b\": 1", b" b do end", b" !b", b" ~b", b" -> { }", b" nil do end", b"\nb", b"; b", b".b", b" .b", b"\n.b", b"&.b", b" => b", b" in b", b" and b", b" && b", b" == b", b" ..b", b" .. b", b" |b", b" #c", b"(b: 1)", b"(*b, &c)", b"() { }", b" if: 1", b" if b do end", b" not(b)", b" defined? b", b" @b", b" $b", b" B", b" +1", b" + 1"];
const AFTER_DEF: &[&[u8]] = &[b"; end", b"\nend", b"(b); end", b"(b) b end", b" b; b end", b" b\nb end", b" b, c = 1; end", b" *b; end", b" **b; end", b" &b; end", b"() = 1", b" = 1", b"(b) = 1", b" (b) = 1", b" (b); end", b" b: 1\nend", b" b:\nend", b" b: ; end", b"; b; rescue; c; end", b"() b end", b" = if b then c end", b" = b 1", b" (b:, **c) b end", b"(...) b(...) end"];
const AFTER_SYM: &[&[u8]] = &[b"", b" if b", b" + 1", b" - 1", b" ? b : c", b".b", b" .b", b"\n.b", b" rescue b", b" && b", b" and b", b"\nb", b"; b", b", 1", b" => b", b" in b", b"[1]", b" [1]", b" * 1", b" / 1", b" % 1", b" << b", b" & b", b" .. b", b" #c\nb", b" while b", b" until b"];
/// an operator or a reserved word in the place of a method name, against an ordinary name in the same place
fn opname(_t: u32, c: u32) {
    let (pre, after) = FRAME[c as usize % FRAME.len()];
    let half = c as usize / FRAME.len();
    let n = OPNAME[half * 9 + choose(if half == 5 { OPNAME.len() - 45 } else { 9 })];
    let x = after[choose(after.len())];
    // the longest operator is taken: a character that continues one
    let word = n[0].is_ascii_alphabetic() || n[0] == b'_';
    if !x.is_empty() {
        let d = x[0];
        if word && d == b':' { lrsym_discard(); }
        if !word && (d == b'[' || (d == b'&' || d == b'.') && n == b"&") { lrsym_discard(); }
    }
    // `class`, `def`... after a colon pair are names too; a constant-like word after `::` is a constant
    if pre == b"a::" && n[0].is_ascii_uppercase() { lrsym_discard(); }
    // a setter has no endless form
    if n == b"[]=" && crate::p_inv::starts(pre, 0, b"def ") && starts_in(x, b" = ") { lrsym_discard(); }
    let (src, sub) = (cat(&[pre, n, x]), cat(&[pre, b"qqqq", x]));
    input(&src);
    let r = parse(src);
    let q = parse(sub);
    let got = dump::ast(&r, false);
    let mut w = dump::ast(&q, false);
    let mut i = 0;
    let mut out = vec![];
    while i < w.len() { if crate::p_inv::starts(&w, i, b"\"qqqq\"") { out.push(b'"'); out.extend_from_slice(n); out.push(b'"'); i += 6; } else { out.push(w[i]); i += 1; } }
    w = out;
    emit(&got);
    if dump::has_error(&r) != dump::has_error(&q) { note(&got); note(&w); fail("a name that is an operator or reserved word is accepted or rejected differently"); }
    if dump::has_error(&r) { return; }
    if got != w { note(&got); note(&w); fail("what follows a name depends on its spelling"); }
}
/// $ followed by anything
fn gvar(t: u32, c: u32) {
    let mut w = vec![b'$'];
    if c == 1 { w.push(b'-'); }
    if c == 2 { w.push(b'1'); }
    w.push(hole(&Set::any()));
    if choose(2) == 1 { let any = Set::any(); w.push(hole(if t == 0 { &IDC } else { &any })); }
    let src = w.clone();
    let n = w.len();
    let d = w[1];
    // how long is the variable
    let special = |c: u8| b"~*$?!@/\\;,.=:<>\"".contains(&c);
    let tail = |mut i: usize| { while i < n && refs::is_ident(w[i]) { i += 1; } i };
    let (kind, len): (&str, usize) = if d == b'_' { if n > 2 && refs::is_ident(w[2]) { ("gvar", tail(2)) } else { ("gvar", 2) } }
        else if special(d) { ("gvar", 2) }
        else if d == b'-' { if n > 2 && refs::is_ident(w[2]) { if w[2] >= 0x80 { lrsym_discard(); } ("gvar", 3) } else { ("", 0) } }
        else if d == b'&' || d == b'`' || d == b'\'' || d == b'+' { ("back_ref", 2) }
        else if d >= b'1' && d <= b'9' { let mut i = 2; while i < n && refs::is_digit(w[i]) { i += 1; } ("nth_ref", i) }
        else if d == b'0' { ("gvar", tail(2)) }
        else if refs::is_ident(d) { if d >= 0x80 { lrsym_discard(); } ("gvar", tail(1)) }
        else { ("", 0) };
    for b in w.iter() { if *b >= 0x80 || *b == 0 || *b == 4 || *b == 26 { lrsym_discard(); } }
    input(&src);
    if kind == "" {
        let r = parse(src);
        return check(dump::has_error(&r), "invalid global variable accepted");
    }
    if len != n {
        // an identifier right after a variable is an error; other characters start something else
        if refs::is_ident(w[len]) { check(dump::has_error(&parse(src)), "two variables without a separator accepted"); }
        return;
    }
    let r = parse(src);
    check(!dump::has_error(&r), "global variable rejected");
    let a = tree(&r);
    emit(ast::name(a).as_bytes());
    check(ast::name(a) == kind, "global variable classified differently");
    let mut name = vec![];
    ast::fields(a, &mut |k, f| if let (true, F::S(s)) = (k == "name", f) { name = s.to_vec() });
    if kind == "nth_ref" { name.insert(0, b'$'); }
    if name != w { note(&name); fail("global variable has another name"); }
}
/// #$ in a string followed by anything
fn istr(_t: u32, c: u32) {
    let x = hole(&Set::any());
    if x >= 0x80 || x == b'"' || x == b'\\' || x == b'\r' || x == b'\n' { lrsym_discard(); }
    let dash: &[u8] = if c % 2 == 1 { b"-" } else { b"" };
    let (open, close, what): (&[u8], &[u8], &[u8]) = [(b"\"".as_slice(), b"\"".as_slice(), b"(dstr".as_slice()), (b"`", b"`", b"(xstr"), (b"%Q\x01", b"\x01", b"(dstr"), (b":\"", b"\"", b"(dsym")][c as usize / 2];
    if x == close[0] { lrsym_discard(); }
    let src = cat(&[open, b"#$", dash, &[x], b" ", close]);
    input(&src);
    let start = refs::is_ident(x) && !refs::is_digit(x);
    let kind: &[u8] = if !dash.is_empty() { if start { b"gvar" } else { b"" } }
        else if b"~*$?!@/\\;,.=:<>\"_".contains(&x) || start || x == b'0' { b"gvar" }
        else if b"&`'+".contains(&x) { b"back_ref" } else if refs::is_digit(x) { b"nth_ref" } else { b"" };
    if dash.is_empty() && x == b'-' { lrsym_discard(); }
    let r = parse(src);
    check(!dump::has_error(&r), "string rejected");
    let got = dump::ast(&r, false);
    emit(&got);
    let dollar: &[u8] = if kind == b"nth_ref" { b"" } else { b"$" };
    let want = cat(&[what, b" parts=[(", kind, b" name=\"", dollar, dash, &[x], b"\") (str value=\" \")])"]);
    if x == b'"' { lrsym_discard(); }
    if kind.is_empty() { if starts_in(&got, b"gvar") || starts_in(&got, b"_ref") { note(&got); fail("text interpolated as a variable"); } }
    else if got != want { note(&got); note(&want); fail("interpolated variable classified differently"); }
}
/// @ and @@ followed by anything
fn ivar(_t: u32, c: u32) {
    let p: &[u8] = [b"@".as_slice(), b"@@", b":@", b":@@", b":$", b"\"#@", b"\"#@@"][c as usize];
    let x = hole(&Set::any());
    let rest: &[u8] = if choose(2) == 1 { b"b1" } else { b"" };
    let q: &[u8] = if c >= 5 { b"\"" } else { b"" };
    if x >= 0x80 { lrsym_discard(); }
    let name = cat(&[p, &[x], rest]);
    let src = cat(&[&name, q]);
    input(&src);
    if c >= 5 {
        // interpolation only if a name follows
        let r = parse(src);
        if x == b'"' || x == b'\\' { lrsym_discard(); }
        check(!dump::has_error(&r), "string rejected");
        let want = if refs::is_ident(x) && !refs::is_digit(x) { cat(&[b"(dstr parts=[(", if c == 5 { b"i" } else { b"c" }, b"var name=\"", &name[2..], b"\")])"]) } else if x == b'@' && c == 5 && !rest.is_empty() { b"(dstr parts=[(cvar name=\"@@b1\")])".to_vec() } else { cat(&[b"(str value=\"", &name[1..], b"\")"]) };
        let got = dump::ast(&r, false);
        emit(&got);
        if x == b'\r' || x == b'\n' { lrsym_discard(); }
        if got != want { note(&got); note(&want); fail("interpolated variable classified differently"); }
        return;
    }
    if c == 4 { if !(refs::is_ident(x) && !refs::is_digit(x)) { lrsym_discard(); } }
    if refs::is_ident(x) && !refs::is_digit(x) {
        let want = match c { 0 => cat(&[b"(ivar name=\"", &name, b"\")"]), 1 => cat(&[b"(cvar name=\"", &name, b"\")"]), _ => cat(&[b"(sym name=\"", &name[1..], b"\")"]) };
        return expect(src, &want);
    }
    if x == b'@' && c % 2 == 0 { if rest.is_empty() { check(dump::has_error(&parse(src)), "variable without a name accepted"); } return; }
    check(dump::has_error(&parse(src)), "invalid variable name accepted");
}
pub static C17: &[Group] = &[
    Group { n: |_| KW.len() as u32 * POS, run: near },
    Group { n: |_| POS, run: any },
    Group { n: |_| 6, run: latin },
    Group { n: |_| LETTERS.len() as u32, run: script },
    Group { n: |_| FRAME.len() as u32 * 6, run: opname },
    Group { n: |_| 3, run: gvar },
    Group { n: |_| 7, run: ivar },
    Group { n: |_| 8, run: istr },
    Group { n: |_| WORDS.len() as u32, run: |_, c| spec(&WORDS[c as usize], SHAPE | DIAG) },
    Group { n: |t| crate::p_long::n_some(crate::p_long::L17, t), run: |t, c| crate::p_long::some(crate::p_long::L17, t, c) },
];
