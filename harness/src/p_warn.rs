//! C26: warnings are given exactly where Ruby gives them.
use crate::props::{input, parse, Group};
use crate::rt::*;
use crate::{corpus, dump, p_generic};
use lib_ruby_parser::*;
use DiagnosticMessage as M;

const LOW: Set = Set::range(b'a', b'd').or(Set::of(b"z"));
const DIG: Set = Set::range(b'0', b'9');
const D19: Set = Set::range(b'1', b'9');
type W = (M, usize, usize);
fn warnings(r: &ParserResult) -> Vec<&Diagnostic> { r.diagnostics.iter().filter(|d| d.level == ErrorLevel::Warning).collect() }
fn emit_w(ws: &[&Diagnostic]) {
    emit_n(ws.len());
    for w in ws.iter() { emit_n(w.loc.begin); emit_n(w.loc.end); }
}
/// exactly these warnings, in this order, at these places
fn exactly(r: &ParserResult, want: &[W], clean: bool) {
    let got = warnings(r);
    emit_w(&got);
    if clean && dump::has_error(r) { let mut o = vec![]; dump::diags(&mut o, &r.diagnostics, true); note(&o); fail("valid program rejected"); }
    let tell = |m: &str| -> ! {
        let mut o = vec![];
        dump::diags(&mut o, &r.diagnostics, true);
        note(&o);
        for w in want.iter() { note(w.0.render().as_bytes()); }
        fail(m)
    };
    if got.len() < want.len() { tell("warning missing") }
    if got.len() > want.len() { tell("warning without a reason") }
    for (g, w) in got.iter().zip(want.iter()) {
        if g.message != w.0 { tell("another warning") }
        if g.loc.begin != w.1 || g.loc.end != w.2 { tell("warning at another place") }
    }
}
fn push(s: &mut Vec<u8>, t: &str, h: u8) { for b in t.bytes() { s.push(if b == b'%' { h } else { b }); } }

// ---- operators that may be a prefix ------------------------------------------------------------
/// what an operand is followed by: M method name (an argument may follow), E end of a value, N closed by a parenthesis
const RECV: &[(u8, &str)] = &[
    (b'M', "v%"), (b'M', "self.v%"), (b'M', "1.v%"), (b'M', "v%!"), (b'M', "V%"), (b'M', "super"), (b'M', "v&.x%"), (b'M', "v::x%"), (b'M', "x = v%"), (b'M', "x(v%"),
    (b'E', "1"), (b'E', "1.5"), (b'E', "v% = 1; v%"), (b'E', ":v%"), (b'E', "@v%"), (b'E', "$v%"), (b'E', "@@v%"), (b'E', "[1]"), (b'E', "\"%\""), (b'E', "nil"), (b'E', "self"), (b'E', "begin; end"), (b'E', "?%"), (b'E', "m { |v%| v%"), (b'E', "%w[a]"), (b'E', "x(1"), (b'E', "x = 1"),
    (b'N', "(1)"), (b'N', "v%(1)"), (b'N', "v%.()"),
];
/// operator, what it looks like, operand
const OPS: &[(&str, &str, &[&str])] = &[
    ("*", "argument prefix", &["x"]), ("**", "argument prefix", &["x"]), ("&", "argument prefix", &["x", "(x)"]), ("-", "unary operator", &["x", "1", "(x)"]), ("+", "unary operator", &["x", "1"]),
    ("/", "regexp literal", &["x"]), ("%", "string literal", &["(x)"]), ("<<", "here document", &["(x)"]),
];
fn ops(_t: u32, c: u32) {
    let (kind, recv) = RECV[c as usize / OPS.len()];
    let (op, syn, operands) = OPS[c as usize % OPS.len()];
    let h = hole(&LOW);
    let s1 = ["", " ", "\t", "  ", " \\\n"][choose(5)];
    let s2 = ["", " ", "\t", "\n"][choose(4)];
    let operand = operands[if operands.len() == 1 { 0 } else { choose(operands.len()) }];
    let lit = recv == "%w[a]";
    let mut src = vec![];
    if lit { src.extend_from_slice(recv.as_bytes()); } else { push(&mut src, recv, h); }
    src.extend_from_slice(s1.as_bytes());
    let at = src.len();
    src.extend_from_slice(op.as_bytes());
    let end = src.len();
    src.extend_from_slice(s2.as_bytes());
    src.extend_from_slice(operand.as_bytes());
    let looks = !s1.is_empty() && s2.is_empty();
    if kind == b'M' && looks && op == "/" { src.push(b'/'); }
    if recv.starts_with("x(") { src.push(b')'); }
    if recv.starts_with("m {") { src.extend_from_slice(b" }"); }
    input(&src);
    let bal = M::AmbiguousOperator { operator: op.to_string(), interpreted_as: syn.to_string() };
    let mut want: Vec<W> = vec![];
    if looks {
        let m = match (kind, op) {
            (b'M', "*") => Some(M::StarInterpretedAsArgPrefix {}),
            (b'M', "**") => Some(M::DStarInterpretedAsArgPrefix {}),
            (b'M', "&") => Some(M::AmpersandInterpretedAsArgPrefix {}),
            (b'M', "-") => Some(M::AmbiguousFirstArgument { operator: b'-' }),
            (b'M', "+") => Some(M::AmbiguousFirstArgument { operator: b'+' }),
            (b'M', "/") => Some(M::AmbiguousRegexp {}),
            (b'M', "%") => None,
            (b'N', _) => None,
            _ => Some(bal),
        };
        if let Some(m) = m { want.push((m, at, end)); }
    }
    // x = v *y is no command with splat, v is
    let command = kind == b'M' && looks;
    exactly(&parse(src), &want, !(command && recv.starts_with("x(")));
}
/// &: with something after it
fn amper(_t: u32, c: u32) {
    let b = hole(&Set::range(0x20, 0x7e));
    let src: Vec<u8> = match c {
        0 => vec![b'v', b' ', b'&', b':', b, b'x'],
        1 => vec![b'v', b' ', b'&', b':', b],
        2 => vec![b'v', b' ', b'&', b':'],
        _ => vec![b'v', b'(', b' ', b'&', b':', b, b')'],
    };
    input(&src);
    let r = parse(src);
    let n = r.diagnostics.iter().filter(|d| d.message == M::AmpersandInterpretedAsArgPrefix {}).count();
    emit_n(n);
    let sym = b == b'\'' || b == b'"' || b == b'_' || b.is_ascii_alphanumeric();
    let want = match c { 0 | 1 => !sym, 2 => true, _ => false };
    check(n == want as usize, if want { "warning missing" } else { "warning without a reason" });
}
/// : that may start a symbol
fn colon(_t: u32, c: u32) {
    let (end, v) = [(true, "1"), (true, "@v"), (true, "nil"), (true, "\"s\""), (true, "[1]"), (true, ":v"), (false, "(1)"), (false, "v()")][c as usize];
    let s1 = ["", " ", "\t"][choose(3)];
    let s2 = ["", " ", "\n"][choose(3)];
    let x = ["x", "1", "(x)", "@x"][choose(4)];
    // "s": would be a label
    if s1.is_empty() && v == "\"s\"" { return; }
    let mut src = b"1 ? ".to_vec();
    src.extend_from_slice(v.as_bytes());
    src.extend_from_slice(s1.as_bytes());
    let at = src.len();
    src.push(b':');
    src.extend_from_slice(s2.as_bytes());
    src.extend_from_slice(x.as_bytes());
    input(&src);
    let mut want = vec![];
    if end && !s1.is_empty() && s2.is_empty() { want.push((M::AmbiguousOperator { operator: ":".to_string(), interpreted_as: "symbol literal".to_string() }, at, at + 1)); }
    exactly(&parse(src), &want, true);
}
// ---- comparisons -------------------------------------------------------------------------------
fn compare(_t: u32, _c: u32) {
    const R: &[&str] = &["<", "<=", ">", ">=", "+", "<<", "|", "&&", "||"];
    let mut src = b"a".to_vec();
    let (mut want, mut left) = (vec![], false);
    let n = 2 + choose(2);
    for i in 0..n {
        let k = choose(R.len());
        src.push(b' ');
        let at = src.len();
        src.extend_from_slice(R[k].as_bytes());
        if k < 4 {
            if left { want.push((M::ComparisonAfterComparison { comparison: R[k].to_string() }, at, src.len())); }
            left = true;
        } else if k >= 7 { left = false; }
        src.extend_from_slice(if i == 0 { b" b" } else if i == 1 { b" c" } else { b" d" });
    }
    input(&src);
    exactly(&parse(src), &want, true);
}
fn compare_parens(_t: u32, c: u32) {
    const T: &[(&str, bool)] = &[("(a % b) % c", false), ("a % (b % c)", false), ("v(a % b % c)", true), ("[a % b, c % d]", false), ("x = a % b % c", true), ("if a % b % c; end", true), ("a % b; c % d", false), ("a % b ? c % d : e", false), ("!(a % b) % c", false), ("a % b == c", false), ("a == b % c", false), ("v a % b % c", true), ("a % -b % c", true), ("def m = a % b % c", true)];
    let (t, bad) = T[c as usize];
    let o1 = ["<", "<=", ">", ">="][choose(4)];
    let o2 = ["<", "<=", ">", ">="][choose(4)];
    let mut src = vec![];
    let (mut k, mut at) = (0, 0);
    for b in t.bytes() {
        if b == b'%' { at = src.len(); src.extend_from_slice(if k == 0 { o1 } else { o2 }.as_bytes()); k += 1; } else { src.push(b); }
    }
    input(&src);
    let want = if bad { vec![(M::ComparisonAfterComparison { comparison: o2.to_string() }, at, at + o2.len())] } else { vec![] };
    exactly(&parse(src), &want, true);
}
// ---- duplicated keys ---------------------------------------------------------------------------
/// class of the key, spelling
const KEYS: &[(u8, &str)] = &[
    (b'y', "%: 1"), (b'y', ":% => 1"), (b'y', "\"%\": 1"), (b'y', ":\"%\" => 1"), (b's', "\"%\" => 1"), (b's', "'%' => 1"), (b'-', "% => 1"), (b'-', "[:%] => 1"), (b'-', "\"#{%}\" => 1"), (b'r', "/%/ => 1"), (b'R', "/%/i => 1"), (b'-', "@% => 1"), (b'-', "**%"), (b'-', "{%: 1} => 1"),
    (b'i', "1# => 1"), (b'f', "1.# => 1"), (b'q', "#r => 1"), (b'c', "#i => 1"), (b'n', "-1# => 1"),
];
const BOX: &[(&str, &str)] = &[("{", "}"), ("{**q, ", "}"), ("v(", ")"), ("v(1, ", ")"), ("[", "]"), ("v[", "]"), ("super(", ")"), ("v.x 1, ", ""), ("{q: 1, ", ", w: 1}"), ("yield(", ")")];
fn key(src: &mut Vec<u8>, t: &str, a: u8, d: u8) { for b in t.bytes() { src.push(if b == b'%' { a } else if b == b'#' && !t.contains("#{") { d } else { b }); } }
fn keys(_t: u32, c: u32) {
    let (k1, t1) = KEYS[c as usize / KEYS.len()];
    let (k2, t2) = KEYS[c as usize % KEYS.len()];
    let b = BOX[choose(BOX.len())];
    let num = |t: &str| t.contains('#') && !t.contains("#{");
    let (mut v1, mut v2) = (b'a', b'a');
    if num(t1) { v1 = hole(&D19); } else { v1 = if k1 != 0 { hole(&LOW) } else { v1 }; }
    if num(t2) { v2 = hole(&D19); } else { v2 = if k2 != 0 { hole(&LOW) } else { v2 }; }
    let mut src = b.0.as_bytes().to_vec();
    key(&mut src, t1, v1, v1);
    src.extend_from_slice(b", ");
    let at = src.len();
    key(&mut src, t2, v2, v2);
    src.extend_from_slice(b.1.as_bytes());
    input(&src);
    let dup = k1 == k2 && k1 != b'-' && v1 == v2;
    let r = parse(src);
    let ws = warnings(&r);
    emit_w(&ws);
    if dump::has_error(&r) { let mut o = vec![]; dump::diags(&mut o, &r.diagnostics, true); note(&o); fail("valid program rejected"); }
    if !dup { check(ws.is_empty(), "warning without a reason"); return; }
    check(ws.len() == 1, "a duplicated key is to be reported once");
    check(ws[0].message == M::DuplicateHashKey {}, "another warning");
    check(ws[0].loc.begin == at, "warning at another place");
}
/// four keys: one warning for each that overwrites an earlier one
fn many(_t: u32, _c: u32) {
    let form = choose(2);
    let mut k = [0u8; 4];
    let mut at = [0usize; 4];
    let mut src = b"{".to_vec();
    let ab = Set::range(b'a', b'c');
    for i in 0..4 {
        k[i] = hole(&ab);
        if i > 0 { src.push(b','); }
        at[i] = src.len();
        if form == 0 { src.push(k[i]); src.extend_from_slice(b": 1"); } else { src.extend_from_slice(b"'"); src.push(k[i]); src.extend_from_slice(b"'=>1"); }
    }
    src.push(b'}');
    input(&src);
    let r = parse(src);
    let ws = warnings(&r);
    emit_w(&ws);
    let mut n = 0;
    for j in 1..4 {
        let mut dup = false;
        for i in 0..j { if k[i] == k[j] { dup = true; } }
        let mut got = 0;
        for w in ws.iter() { if w.loc.begin == at[j] { got += 1; check(w.message == M::DuplicateHashKey {}, "another warning"); } }
        check(got == dup as usize, "a duplicated key is to be reported once");
        n += got;
    }
    check(ws.len() == n, "warning at another place");
}
/// two equal keys among up to 14 different ones
fn far(_t: u32, c: u32) {
    let n = 3 + c as usize / 4;
    let (i, d) = (choose(n - 1), choose(n - 1) + 1);
    let j = i + d;
    if j >= n { lrsym_discard(); }
    let h = hole(&Set::range(b'p', b'z'));
    let (pre, post): (&[u8], &[u8]) = [(b"".as_slice(), b": 1".as_slice()), (b"'", b"' => 1"), (b":", b" => 1"), (b"/", b"\nx/ => 1")][c as usize % 4];
    let mut src = b"{".to_vec();
    let mut at = 0;
    for k in 0..n {
        if k > 0 { src.extend_from_slice(b", "); }
        if k == j { at = src.len(); }
        src.extend_from_slice(pre);
        if k == i || k == j { src.push(h); } else { src.push(b'a' + k as u8); }
        src.extend_from_slice(post);
    }
    src.push(b'}');
    input(&src);
    let r = parse(src);
    let ws = warnings(&r);
    emit_w(&ws);
    check(ws.len() == 1, "a duplicated key is to be reported once");
    check(ws[0].message == M::DuplicateHashKey {} && ws[0].loc.begin == at, "another warning");
}
// ---- $1 .. -------------------------------------------------------------------------------------
fn nth(_t: u32, c: u32) {
    let limit = b"1073741823";
    let mut src = b"$".to_vec();
    let big;
    if c < 10 {
        // the limit up to some digit, any digit there, and what follows
        let k = c as usize;
        let tail = choose(3);
        src.extend_from_slice(&limit[..k]);
        let d = if k == 0 { hole(&D19) } else { hole(&DIG) };
        src.push(d);
        while src.len() < 11 { let i = src.len() - 1; src.push(match tail { 0 => b'0', 1 => b'9', _ => limit[i] }); }
        big = if d != limit[k] { d > limit[k] } else { tail == 1 && k < 9 };
    } else {
        let n = [1usize, 2, 3, 9, 11, 12, 19, 20, 21, 40][c as usize - 10];
        src.push(hole(&D19));
        let tail = [b'0', b'9', b'1'][choose(3)];
        for _ in 1..n { src.push(tail); }
        if n > 1 && n < 4 { src[n] = hole(&DIG); }
        big = n > 10;
    }
    input(&src);
    let n = src.len();
    let name = String::from_utf8(src[1..].to_vec()).unwrap();
    let want = if big { vec![(M::NthRefIsTooBig { nth_ref: name }, 0, n)] } else { vec![] };
    exactly(&parse(src), &want, true);
}
// ---- ends of lines -----------------------------------------------------------------------------
const DOTS: &[(&str, &str, bool)] = &[("", "", true), ("x = ", "", true), ("(", ")", false), ("[", "]", false), ("v(", ")", false), ("v { ", " }", false), ("begin; ", "\nend", true), ("if 1\n", "\nend", true), ("v[", "]", false), ("-> { ", "\n}", false), ("def m\n", "\nend", true)];
fn dots(_t: u32, c: u32) {
    let (pre, post, plain) = DOTS[c as usize];
    let two = choose(2) == 1;
    let recv = ["v", "1", "@v", "(1)", "v.x"][choose(5)];
    let tail = choose(8);
    let mut src = pre.as_bytes().to_vec();
    src.extend_from_slice(recv.as_bytes());
    src.extend_from_slice(["", " "][choose(2)].as_bytes());
    let at = src.len();
    src.extend_from_slice(if two { b".." } else { b"..." });
    let end = src.len();
    // v.x ..1 and the like would be a range as the argument, v ... an error
    src.extend_from_slice([&b""[..], b" ", b"\n", b" \t\n", b" # x\n", b" #\n", b"1", b" 1"][tail]);
    if tail < 2 && (post.is_empty() || post.starts_with('\n')) || tail >= 6 || (2..6).contains(&tail) { src.extend_from_slice(post.as_bytes()); } else { return; }
    input(&src);
    let eol = tail < 6;
    let want = if eol && plain && !two { vec![(M::TripleDotAtEol {}, at, end)] } else { vec![] };
    let r = parse(src);
    let ws: Vec<&Diagnostic> = r.diagnostics.iter().filter(|d| d.message == M::TripleDotAtEol {}).collect();
    emit_w(&ws);
    check(ws.len() == want.len(), if want.is_empty() { "warning without a reason" } else { "warning missing" });
    for w in ws.iter() { check(w.loc.begin == at && w.loc.end == end, "warning at another place"); }
}
const IFS: &[(&str, &str, &str)] = &[("", "if", "v\n1\nend"), ("x = ", "if", "v\n1\nend"), ("if v\n1\n", "elsif", "x\n2\nend"), ("v(", "if", "x\n2\nend)"), ("", "unless", "v\n1\nend"), ("", "while", "v\n1\nend"), ("", "until", "v\n1\nend"), ("", "case", "v\nwhen 1\nend"), ("v ", "if", "x"), ("case v\n", "when", "x\nend"), ("v ", "unless", "x"), ("v ", "while", "x"), ("v ", "and", "x"), ("v ", "rescue", "x"), ("", "not", "x"), ("def m\n", "if", "v\n1\nend\nend")];
fn ifs(_t: u32, c: u32) {
    let (pre, kw, post) = IFS[c as usize];
    let sp = choose(7);
    let mut src = pre.as_bytes().to_vec();
    let at = src.len();
    src.extend_from_slice(kw.as_bytes());
    src.extend_from_slice([&b" "[..], b"\t", b"\n", b" \n", b" # x\n", b"#\n", b" \\\n"][sp]);
    src.extend_from_slice(post.as_bytes());
    // `not` and a newline
    if kw == "not" && (2..6).contains(&sp) { return; }
    input(&src);
    let full = (kw == "if" && pre != "v ") || kw == "elsif";
    let want = if full && (2..6).contains(&sp) { vec![(M::TokAtEolWithoutExpression { token_name: kw.to_string() }, at, at + kw.len())] } else { vec![] };
    exactly(&parse(src), &want, true);
}
// ---- carriage returns --------------------------------------------------------------------------
/// @ stands for a carriage return; the first of those that is a mere space is reported
const CRS: &[&str] = &["v@+ x", "v +@x", "v @+ x@+ y", "v@\n", "v@\nx@\n", "# a@b\nv", "\"a@b\"", "'@'", "v@", "@v", "v@\n@x", "v;@x", "%w[a@b]", "<<A\na@b\nA\n", "=begin\na@b\n=end\nv", "v # @", "v(1,@2)", "v@@x", "v @ @\n", ":\"@\"", "/@/", "v@\nx@;y", "__END__\na@b", "v\n__END__@\na@b"];
const CRW: &[i32] = &[1, 3, 2, -1, -1, -1, -1, -1, 1, 0, 3, 2, -1, -1, -1, -1, 4, 1, 2, -1, -1, 4, -1, -1];
fn crs(_t: u32, c: u32) {
    let t = CRS[c as usize];
    let w = CRW[c as usize];
    let cr = hole(&Set::of(b"\r\t"));
    let mut src = vec![];
    for b in t.bytes() { src.push(if b == b'@' { cr } else { b }); }
    input(&src);
    let r = parse(src);
    let ws: Vec<&Diagnostic> = r.diagnostics.iter().filter(|d| d.message == M::SlashRAtMiddleOfLine {}).collect();
    emit_w(&ws);
    if w < 0 || cr != b'\r' { check(ws.is_empty(), "warning without a reason"); return; }
    check(ws.len() == 1, "a carriage return is to be reported once");
    check(ws[0].loc.begin as i32 <= w && ws[0].loc.end as i32 == w + 1, "warning at another place");
}
// ---- characters --------------------------------------------------------------------------------
const BLANK: Set = Set::of(b" \n\t\x0b\r\x0c");
fn esc(c: u8) -> char { match c { b' ' => 's', b'\n' => 'n', b'\t' => 't', 0x0b => 'v', b'\r' => 'r', _ => 'f' } }
fn only(r: &ParserResult, what: Option<String>) {
    let mut n = 0;
    for d in r.diagnostics.iter() {
        if let M::InvalidCharacterSyntax { suggestion } = &d.message {
            n += 1;
            match &what { Some(s) => if suggestion != s { note(suggestion.as_bytes()); note(s.as_bytes()); fail("another suggestion") }, None => fail("warning without a reason") }
            check(d.level == ErrorLevel::Warning, "no warning but an error");
        }
    }
    emit_n(n);
    check(n == what.is_some() as usize, "warning missing");
}
const QM: &[(&str, &str, bool)] = &[("", "", true), ("x = ", "", true), ("v(", ")", true), ("[", "]", true), ("v ", "x : y", false), ("1 ", "x : y", false), ("v.x ", "1 : y", false), ("x(v ", "1 : y)", false), ("v 1, ", "", true), ("v == ", "", true)];
fn qmark(_t: u32, c: u32) {
    let (pre, post, warn) = QM[c as usize];
    let b = hole(&BLANK);
    let mut src = pre.as_bytes().to_vec();
    src.push(b'?');
    src.push(b);
    src.extend_from_slice(post.as_bytes());
    input(&src);
    let r = parse(src);
    only(&r, if warn { Some(format!("?\\{}", esc(b))) } else { None });
}
const ESCS: &[(&str, &str, &str)] = &[("\"\\M-", "\\M-", "\\M-"), ("\"\\C-", "", "\\C-"), ("\"\\c", "", "\\C-"), ("\"\\M-\\C-", "\\M-", "\\M-\\C-"), ("\"\\M-\\c", "\\M-", "\\M-\\C-"), ("\"\\C-\\M-", "\\M-", "\\C-\\M-"), ("\"\\c\\M-", "\\M-", "\\C-\\M-"), ("?\\M-", "\\M-", "\\M-"), ("?\\C-", "", "\\C-"), (":\"\\C-", "", "\\C-"), ("`\\C-", "", "\\C-"), ("%w[\\C-", "-", "-"), ("'\\C-", "-", "-"), ("%W[\\C-", "", "\\C-")];
fn escs(_t: u32, c: u32) {
    let (pre, cntrl, space) = ESCS[c as usize];
    let b = hole(&Set::of(b" \n\t\x0b\x0cax~"));
    let mut src = pre.as_bytes().to_vec();
    src.push(b);
    src.extend_from_slice(if pre.starts_with('?') { b"" } else if pre.starts_with('%') { b"]" } else if pre.starts_with('\'') { b"'" } else if pre.starts_with('`') { b"`" } else { b"\"" });
    input(&src);
    let r = parse(src);
    let blank = BLANK.has(b);
    let p = if b == b' ' { space } else { cntrl };
    only(&r, if blank && p != "-" { Some(format!("{}\\{}", p, esc(b))) } else { None });
}
fn ternary(_t: u32, c: u32) {
    let (pre, warns) = [("v", true), ("v.x", true), ("V", true), ("1", false), ("@v", false), ("(1)", false), ("v()", false), ("z = 1; z", false)][c as usize];
    let n = 1 + choose(3);
    let s1 = [" ", "\t"][choose(2)];
    let mut src = pre.as_bytes().to_vec();
    src.extend_from_slice(s1.as_bytes());
    let at = src.len();
    src.push(b'?');
    let first = hole(&Set::range(b'a', b'f').or(Set::of(b"_A")));
    let mut id = vec![first];
    for _ in 1..n { id.push(hole(&Set::of(b"gh_QX7"))); }
    src.extend_from_slice(&id);
    src.extend_from_slice(b" : y");
    input(&src);
    let r = parse(src);
    let ws = warnings(&r);
    emit_w(&ws);
    if n == 1 || !warns { check(ws.is_empty(), "warning without a reason"); return; }
    check(!dump::has_error(&r), "valid program rejected");
    check(ws.len() == 1, "warning missing");
    check(ws[0].message == M::AmbiguousTernaryOperator { condition: String::from_utf8(id).unwrap() }, "another warning");
    check(ws[0].loc.begin == at && ws[0].loc.end == at + 1, "warning at another place");
}
// ---- definitions -------------------------------------------------------------------------------
fn defs(_t: u32, c: u32) {
    const D: &[(&str, bool)] = &[("def m", true), ("def self.m", true), ("def m?", true), ("def m=", true), ("def +", true), ("def M", true), ("def if", true), ("def []", true), ("def x.m!", true), ("->", false), ("v", false), ("v.x", false), ("super", false), ("yield", false), ("v = ->", false), ("private def m", true), ("not", false), ("defined?", false), ("return", false)];
    let (t, d) = D[c as usize];
    let s = ["", " ", "\t", "  "][choose(4)];
    let mut src = t.as_bytes().to_vec();
    src.extend_from_slice(s.as_bytes());
    let at = src.len();
    src.extend_from_slice(b"(x)");
    if t.contains("->") { src.extend_from_slice(b" {}"); } else if d { src.extend_from_slice(b"; end"); }
    input(&src);
    let want = if d && !s.is_empty() { vec![(M::ParenthesesIterpretedAsArglist {}, at, at + 1)] } else { vec![] };
    exactly(&parse(src), &want, true);
}
fn ends(_t: u32, c: u32) {
    const E: &[(&str, bool)] = &[("END { 1 }", false), ("def m; @; end", true), ("def self.m; @; end", true), ("def m; v { @ }; end", true), ("v { @ }", false), ("class A; @; end", false), ("module A; @; end", false), ("def m; end; @", false), ("def m; -> { @ }; end", true), ("def m; class << self; @; end; end", false), ("class A; def m; if 1; @; end; end; end", true), ("def m; 1; end; def n; @; end", true), ("def m = 1; @", false), ("class A; def m; 1; end; @; end", false), ("def m; def n; end; @; end", true), ("def m; begin; @; ensure; 1; end; end", true)];
    let (t, bad) = E[c as usize];
    let b = hole(&DIG);
    let mut src = vec![];
    let mut at = 0;
    for x in t.bytes() { if x == b'@' { at = src.len(); src.extend_from_slice(b"END { "); src.push(b); src.extend_from_slice(b" }"); } else { src.push(x); } }
    input(&src);
    let want = if bad { vec![(M::EndInMethod {}, at, at + 3)] } else { vec![] };
    exactly(&parse(src), &want, true);
}
pub static C26: &[Group] = &[
    Group { n: |_| corpus::wide_total(), run: |_, c| p_generic::spec(corpus::get(c), p_generic::DIAG) },
    Group { n: |_| (RECV.len() * OPS.len()) as u32, run: ops },
    Group { n: |_| 4, run: amper },
    Group { n: |_| 8, run: colon },
    Group { n: |_| 1, run: compare },
    Group { n: |_| 14, run: compare_parens },
    Group { n: |_| (KEYS.len() * KEYS.len()) as u32, run: keys },
    Group { n: |_| 1, run: many },
    Group { n: |_| 48, run: far },
    Group { n: |_| 20, run: nth },
    Group { n: |_| DOTS.len() as u32, run: dots },
    Group { n: |_| IFS.len() as u32, run: ifs },
    Group { n: |_| CRS.len() as u32, run: crs },
    Group { n: |_| QM.len() as u32, run: qmark },
    Group { n: |_| ESCS.len() as u32, run: escs },
    Group { n: |_| 8, run: ternary },
    Group { n: |_| 19, run: defs },
    Group { n: |_| 16, run: ends },
];
