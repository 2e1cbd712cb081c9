//! Sources: C10 comments, C11 encodings, C12 lines and rendering, C23 the scope stack.
use crate::p_generic::{free, n_windows, window};
use crate::p_inv::{has, starts};
use crate::p_lex::cat;
use crate::props::*;
use crate::rt::*;
use crate::{ast, corpus, dump, tmpl};
use lib_ruby_parser::source::*;
use lib_ruby_parser::*;
use std::cell::UnsafeCell;

// ---- C12 -----------------------------------------------------------------------------------
fn ref_line_col(s: &[u8], pos: usize) -> Option<(usize, usize)> {
    if pos > s.len() { return None; }
    let (mut l, mut c) = (0, 0);
    let mut i = 0;
    while i < pos { if s[i] == b'\n' { l += 1; c = 0; } else { c += 1; } i += 1; }
    Some((l, c))
}
fn ref_line(s: &[u8], pos: usize) -> (usize, usize) {
    let mut b = pos;
    while b > 0 && s[b - 1] != b'\n' { b -= 1; }
    let mut e = pos;
    while e < s.len() && s[e] != b'\n' { e += 1; }
    (b, e)
}
/// lines and columns of every offset, the line of every location
fn lines(_t: u32, c: u32) {
    let small = Set::of(b"\na\r");
    let any = Set::any();
    let (n, set) = if c < 4 { (c, &any) } else { (c + 1, &small) };
    let v = { let mut v = vec![]; for _ in 0..n { v.push(hole(set)); } v };
    input(&v);
    let mut i = DecodedInput::named("n");
    i.update_bytes(v.clone());
    check(i.as_shared_bytes() == &v[..], "bytes changed");
    for p in 0..v.len() + 3 {
        let got = i.line_col_for_pos(p);
        check(got == ref_line_col(&v, p), "line/column of an offset is wrong");
        let l = Loc { begin: p, end: p };
        check(l.begin_line_col(&i) == got, "line/column of a location is wrong");
        match (l.expand_to_line(&i), got) {
            (None, None) => {}
            (Some((n, x)), Some((ln, _))) => { check(n == ln, "line number of a location is wrong"); check((x.begin, x.end) == ref_line(&v, p), "line of a location is wrong"); emit_n(x.begin * 100 + x.end); }
            _ => fail("a location has a line exactly if its offset does"),
        }
        for q in p..v.len() + 2 {
            let got = Loc { begin: p, end: q }.source(&i);
            check(got.is_some() == (q <= v.len()), "source of a location exists exactly if it is inside of the input");
            if let Some(t) = got { check(t == String::from_utf8_lossy(&v[p..q]), "source of a location is wrong"); }
        }
    }
}
fn render(_t: u32, c: u32) {
    let n = c as usize;
    let mut v = vec![];
    for _ in 0..n { v.push(hole(&Set::range(0x20, 0x7e).or(Set::of(b"\n\t\xc3\xa9")))); }
    input(&v);
    let mut i = DecodedInput::named("some.rb");
    i.update_bytes(v.clone());
    let b = choose(n + 1);
    let e = b + choose(n + 1 - b);
    let w = choose(2) == 1;
    let d = Diagnostic { level: if w { ErrorLevel::Warning } else { ErrorLevel::Error }, message: DiagnosticMessage::FractionAfterNumeric {}, loc: Loc { begin: b, end: e } };
    let got = match d.render(&i) { Some(s) => s, None => fail("diagnostic inside of the input not rendered") };
    let (line, col) = ref_line_col(&v, b).unwrap();
    let (lb, le) = ref_line(&v, b);
    let mut want = vec![];
    let pre = { let mut p = b"some.rb:".to_vec(); dump::num(&mut p, line + 1); p };
    want.extend_from_slice(&pre);
    want.push(b':');
    dump::num(&mut want, col);
    want.extend_from_slice(if w { b": warning: " } else { b": error: " });
    want.extend_from_slice(d.message.render().as_bytes());
    want.push(b'\n');
    want.extend_from_slice(&pre);
    want.extend_from_slice(b": ");
    want.extend_from_slice(String::from_utf8_lossy(&v[lb..le]).as_bytes());
    want.push(b'\n');
    want.extend_from_slice(&pre);
    want.extend_from_slice(b": ");
    for _ in 0..col { want.push(b' '); }
    want.push(b'^');
    let mut k = b + 1;
    while k < e { want.push(b'~'); k += 1; }
    emit(got.as_bytes());
    if got.as_bytes() != &want[..] { note(&want); note(got.as_bytes()); fail("diagnostic rendered wrongly"); }
    check(d.render_message() == d.message.render(), "message rendered wrongly");
    check(d.is_warning() == w && d.is_error() != w, "severity wrong");
}
/// locations and diagnostics of real parses
fn real(r: &ParserResult) {
    let s = r.input.as_shared_bytes();
    for d in r.diagnostics.iter() {
        if d.loc.begin > d.loc.end || d.loc.end > s.len() { continue; }
        let got = match d.render(&r.input) { Some(s) => s, None => fail("diagnostic inside of the input not rendered") };
        let (line, col) = ref_line_col(s, d.loc.begin).unwrap();
        let mut want = b"(eval):".to_vec();
        dump::num(&mut want, line + 1);
        want.push(b':');
        dump::num(&mut want, col);
        want.extend_from_slice(b": ");
        check(starts(got.as_bytes(), 0, &want), "diagnostic rendered with another position");
        emit_n(want.len());
    }
}
pub static C12: &[Group] = &[
    Group { n: |t| 8 + 2 * t, run: lines },
    Group { n: |t| 6 + t, run: render },
    Group { n: |_| corpus::total(), run: |_, c| { let (v, _) = tmpl::expand(corpus::get(c).t); input(&v); real(&parse(v)) } },
    Group { n: |_| 3, run: |_, c| real(&parse(free(c))) },
    Group { n: crate::p_long::n, run: |_, c| real(&parse(crate::p_long::source(c))) },
];

// ---- C10 -----------------------------------------------------------------------------------
fn blank(b: u8) -> bool { b == b' ' || (b >= 9 && b <= 13) }
fn bol(s: &[u8], i: usize) -> bool { i == 0 || s[i - 1] == b'\n' || (i == 3 && starts(s, 0, b"\xef\xbb\xbf")) }
/// the comments in s[i..j], where there are no tokens (None: something else is there)
fn comments_in(s: &[u8], mut i: usize, j: usize, out: &mut Vec<(usize, usize, u8)>) -> bool {
    while i < j {
        let c = s[i];
        if c == b'#' {
            let b = i;
            while i < j && s[i] != b'\n' { i += 1; }
            if i < s.len() && s[i] == b'\n' { i += 1; }
            out.push((b, i, b'#'));
        } else if c == b'=' && bol(s, i) && starts(s, i, b"=begin") && (i + 6 >= s.len() || blank(s[i + 6]) || s[i + 6] == 0 || s[i + 6] == 4 || s[i + 6] == 26) {
            let b = i;
            loop {
                while i < s.len() && s[i] != b'\n' { i += 1; }
                i += 1;
                if i >= s.len() { return false; }
                if starts(s, i, b"=end") && (i + 4 >= s.len() || blank(s[i + 4]) || s[i + 4] == 0 || s[i + 4] == 4 || s[i + 4] == 26) { break; }
            }
            while i < s.len() && s[i] != b'\n' { i += 1; }
            if i < s.len() { i += 1; }
            out.push((b, i, b'='));
        } else if c == 0 || c == 4 || c == 26 { return true; }
        else if c == b'_' && bol(s, i) && starts(s, i, b"__END__") { return true; }
        else { i += 1; }
    }
    true
}
/// error-free program: the comments are exactly those outside of all tokens
fn comments(r: &ParserResult) {
    if dump::has_error(r) { return; }
    let s = r.input.as_shared_bytes();
    let mut ts: Vec<(usize, usize)> = vec![];
    let mut heredoc = false;
    for t in r.tokens.iter() {
        let n = t.token_name();
        if n == "tNL" || n == "EOF" { continue; }
        if starts(t.as_bytes(), 0, b"<<") && (n == "tSTRING_BEG" || n == "tXSTRING_BEG") { heredoc = true; }
        ts.push((t.loc.begin, t.loc.end));
    }
    if heredoc && (has(s, 0) || has(s, 4) || has(s, 26)) { return; }
    let sort = |v: &mut Vec<(usize, usize)>| { let mut i = 1; while i < v.len() { let mut k = i; while k > 0 && v[k - 1].0 > v[k].0 { v.swap(k - 1, k); k -= 1; } i += 1; } };
    sort(&mut ts);
    let mut want = vec![];
    let mut p = 0;
    for (b, e) in ts.iter() { if *b > p { comments_in(s, p, *b, &mut want); } if *e > p { p = *e; } }
    comments_in(s, p, s.len(), &mut want);
    let mut got: Vec<(usize, usize)> = vec![];
    for c in r.comments.iter() {
        if !heredoc && got.len() > 0 { check(got[got.len() - 1].1 <= c.location.begin, "comments out of order"); }
        got.push((c.location.begin, c.location.end));
    }
    sort(&mut got);
    check(got.len() == want.len(), "not exactly the comments of the program are reported");
    for (i, w) in want.iter().enumerate() {
        emit_n(w.0 * 1000 + w.1);
        check(got[i] == (w.0, w.1), "comment with another extent");
    }
    for c in r.comments.iter() {
        let first = s[c.location.begin];
        check(match c.kind { CommentType::Inline => first == b'#', CommentType::Document => first == b'=', _ => false }, "comment with another kind");
    }
}
/// comments with arbitrary text in typical places; C marks the comment
const PLACES: &[&[u8]] = &[b"C", b"C\n", b"a C\nb", b"a; C\nb", b"  C\na\n", b"a\nC\n  C\nb", b"[1, C\n2]", b"a(C\n)", b"a C\n.b", b"\"x#{a C\n}y\"", b"C\r\na", b"def a; C\nend C", b"{ C\n}", b"a <<B C\n#b\nB\nC\n", b"a +C\nb", b"%w[a #b] C\n", b"/#a/ C\n", b"a ? b : C\nc", b"C\nC\nC", b"class A C\nend", b"a do |b| C\nend", b"x = C\n1", b"'#a' C\n:'#' C\n?# C\n", b"\xef\xbb\xbfC\na", b"#!/ruby\nC\na"];
fn inline(t: u32, c: u32) {
    let place = PLACES[c as usize];
    let body = Set::any().minus(Set::of(b"\n"));
    let mut v = vec![];
    let mut want = vec![];
    let mut k = 0;
    for i in 0..place.len() {
        if place[i] != b'C' { v.push(place[i]); continue; }
        let b = v.len();
        v.push(b'#');
        let n = if k == 0 { 2 + t as usize } else { 1 };
        for _ in 0..n { v.push(hole(&body)); }
        k += 1;
        let nl = if starts(place, i + 1, b"\r\n") { 2 } else if i + 1 < place.len() { 1 } else { 0 };
        want.push((b, v.len() + nl));
    }
    if starts(place, 0, b"#!") { want.insert(0, (0, 8)); }
    input(&v);
    let r = parse(v);
    check(!dump::has_error(&r), "a comment causes an error");
    let mut got = vec![];
    for x in r.comments.iter() { check(x.kind == CommentType::Inline, "comment with another kind"); got.push((x.location.begin, x.location.end)); emit_n(x.location.begin * 1000 + x.location.end); }
    check(got == want, "not exactly the comments of the program are reported");
    check(r.magic_comments.is_empty(), "ordinary comment reported as a magic comment");
}
/// =begin ... =end with arbitrary bytes in, before and after the body
const DOCS: &[(&[u8], &[u8])] = &[(b"=begin", b"\nx\n=end\na"), (b"=begin\n", b"\n=end\na"), (b"=begin\n", b"=end\na"), (b"=begin\nx\n=end", b"\na"), (b"=begin\nx\n=end", b""), (b"a\n=begin\n=end\n", b"=begin\n=end\nb"), (b"a", b"=begin\n\n=end\n"), (b"=begin x\n", b"\n=end y\nb # z")];
fn document(t: u32, c: u32) {
    let (pre, post) = DOCS[c as usize];
    let n = 2 + t as usize;
    let k = choose(n + 1);
    let mut v = pre.to_vec();
    for i in 0..n { if i < k { v.push(hole(&Set::any())); } }
    v.extend_from_slice(post);
    input(&v);
    // scan: outside of comments only the identifiers a, b and layout are allowed here
    let mut want = vec![];
    let mut w = vec![];
    let ok = comments_in(&v, 0, v.len(), &mut want);
    let mut p = 0;
    for x in want.iter() { w.extend_from_slice(&v[p..x.0]); p = x.1; }
    w.extend_from_slice(&v[p..]);
    for b in w.iter() { if !blank(*b) && *b != b'a' && *b != b'b' { lrsym_discard(); } }
    let r = parse(v);
    if !ok { check(dump::has_error(&r), "=begin without =end accepted"); return; }
    check(!dump::has_error(&r), "a comment causes an error");
    check(r.comments.len() == want.len(), "not exactly the comments of the program are reported");
    for (i, x) in want.iter().enumerate() {
        let g = &r.comments[i];
        check(g.location.begin == x.0 && g.location.end == x.1, "comment with another extent");
        check(g.kind == if x.2 == b'#' { CommentType::Inline } else { CommentType::Document }, "comment with another kind");
        emit_n(x.1);
    }
}
// magic comments
const KEYS: &[(&[u8], u8)] = &[(b"coding", 1), (b"encoding", 1), (b"frozen_string_literal", 2), (b"frozen-string-literal", 2), (b"frozen-string_literal", 2), (b"warn_indent", 3), (b"warn-indent", 3), (b"shareable_constant_value", 4), (b"shareable-constant-value", 4), (b"codin", 0), (b"xcoding", 0), (b"codings", 0), (b"frozen_string_litera", 0), (b"frozenstring_literal", 0), (b"warnindent", 0), (b"foo", 0), (b"c", 0), (b"warn_indents", 0), (b"shareable_constant_values", 0)];
fn kind(m: &MagicComment) -> u8 { match m.kind { MagicCommentKind::Encoding => 1, MagicCommentKind::FrozenStringLiteral => 2, MagicCommentKind::WarnIndent => 3, MagicCommentKind::ShareableConstantValue => 4 } }
const VAL: Set = Set::range(b'a', b'z').or(Set::range(b'A', b'Z')).or(Set::range(b'0', b'9')).or(Set::of(b"_-+.,"));
const SP: Set = Set::of(b" \t");
/// `#` blanks key blanks `:` blanks value blanks newline, on line `line`
fn magic(t: u32, c: u32) {
    let (key, k) = KEYS[c as usize / 4];
    let form = c % 4;
    let mut v: Vec<u8> = match form { 0 => vec![], 1 => b"a\n".to_vec(), 2 => b"a ".to_vec(), _ => b"#!x\n".to_vec() };
    v.push(b'#');
    let sp = |v: &mut Vec<u8>, min: usize| { let n = min + choose(2); for i in 0..min + 1 { if i < n { v.push(hole(&SP)); } } };
    sp(&mut v, 0);
    let kb = v.len();
    v.extend_from_slice(key);
    let ke = v.len();
    // letter case does not matter
    let at = [kb, (kb + ke) / 2, ke - 1][choose(3)];
    let l = v[at];
    if l >= b'a' && l <= b'z' { v[at] = hole(&Set::of(&[l, l - 32])); }
    sp(&mut v, 0);
    v.push(b':');
    sp(&mut v, 0);
    let quoted = k != 1 && choose(2) == 1;
    if quoted { v.push(b'"'); }
    let vb = v.len();
    if k == 1 { v.extend_from_slice([b"utf-8".as_slice(), b"UTF-8", b"binary", b"ASCII-8BIT"][choose(4)]); } else { for _ in 0..1 + t { v.push(hole(&VAL)); } v.push(hole(&VAL)); }
    let ve = v.len();
    if quoted { v.push(b'"'); }
    sp(&mut v, 0);
    v.extend_from_slice(b"\nb");
    input(&v);
    if v.len() - kb < 8 { lrsym_discard(); }
    let r = parse(v);
    check(!dump::has_error(&r), "a magic comment causes an error");
    if k == 0 { check(r.magic_comments.is_empty(), "ordinary comment reported as a magic comment"); return; }
    check(r.magic_comments.len() == 1, "magic comment not reported once");
    let m = &r.magic_comments[0];
    check(kind(m) == k, "magic comment with another kind");
    check(m.key_l.begin == kb && m.key_l.end == ke, "key of a magic comment located wrongly");
    check(m.value_l.begin == vb && m.value_l.end == ve, "value of a magic comment located wrongly");
    emit_n(vb);
}
/// text around a magic comment that makes it an ordinary one, and the -*- form
fn emacs(t: u32, c: u32) {
    let (k1, n1) = KEYS[2 + c as usize % 10];
    let (k2, n2) = KEYS[2 + (c as usize / 10 * 3 + 1) % 10];
    let mut v = b"#".to_vec();
    let mut want: Vec<(u8, usize, usize, usize, usize)> = vec![];
    let sp = |v: &mut Vec<u8>| { if choose(2) == 1 { v.push(hole(&SP)); } };
    sp(&mut v);
    v.extend_from_slice(b"-*- ");
    for (i, (k, n)) in [(k1, n1), (k2, n2)].iter().enumerate() {
        if i == 1 { if choose(2) == 0 { break; } v.extend_from_slice([b"; ".as_slice(), b";", b" ; "][choose(3)]); }
        let kb = v.len();
        v.extend_from_slice(k);
        let ke = v.len();
        v.push(b':');
        sp(&mut v);
        // a bare or a quoted value; in quotes a backslash keeps the next character
        let q = choose(4);
        if q > 0 { v.push(b'"'); }
        let vb = v.len();
        for _ in 0..1 + t { v.push(hole(&Set::range(b'a', b'z'))); }
        if q == 2 { v.push(b'\\'); v.push(hole(&Set::of(b"\"\\a;:"))); v.push(b'b'); }
        if q == 3 { v.push(hole(&Set::of(b";: ,'"))); }
        let ve = v.len();
        if q > 0 { v.push(b'"'); }
        if *n > 0 { want.push((*n, kb, ke, vb, ve)); }
    }
    sp(&mut v);
    v.extend_from_slice(b" -*-");
    let tail = choose(3);
    v.extend_from_slice([b"\nb".as_slice(), b" x\nb", b""][tail]);
    input(&v);
    let r = parse(v);
    check(!dump::has_error(&r), "a magic comment causes an error");
    check(r.magic_comments.len() == want.len(), "magic comments not reported once each");
    for (i, w) in want.iter().enumerate() {
        let m = &r.magic_comments[i];
        check(kind(m) == w.0 && m.key_l.begin == w.1 && m.key_l.end == w.2 && m.value_l.begin == w.3 && m.value_l.end == w.4, "magic comment reported wrongly");
        emit_n(w.4);
    }
}
fn no_magic(_t: u32, c: u32) {
    // text before the key, after the value or instead of the colon
    let (key, k) = KEYS[c as usize / 3];
    if k == 0 || k == 1 { return; }
    let h = hole(&Set::range(b'a', b'z'));
    let v = match c % 3 {
        0 => cat(&[b"# ", &[h], b" ", key, b": true\nb"]),
        1 => cat(&[b"# ", key, b": true ", &[h], b"\nb"]),
        _ => { let x = hole(&Set::range(0x21, 0x7e).minus(Set::of(b":"))); cat(&[b"# ", key, &[x], b" true\nb"]) }
    };
    input(&v);
    let r = parse(v);
    emit_n(r.magic_comments.len());
    check(!dump::has_error(&r), "a comment causes an error");
    check(r.magic_comments.is_empty(), "ordinary comment reported as a magic comment");
}
/// a key without a value
fn no_value(_t: u32, c: u32) {
    let (key, k) = KEYS[c as usize / 3];
    let n = choose(4);
    let mut sp = vec![];
    for i in 0..3 { if i < n { sp.push(hole(&SP)); } }
    let v = match c % 3 {
        0 => cat(&[b"# ", key, b":", &sp, b"\nb"]),
        1 => cat(&[b"# ", key, &sp, b"\nb"]),
        _ => cat(&[b"b # ", key, b":", &sp]),
    };
    input(&v);
    let r = parse(v);
    emit_n(r.magic_comments.len());
    check(k == 1 || !dump::has_error(&r), "a comment causes an error");
    check(r.magic_comments.is_empty(), "comment without a value reported as a magic comment");
}
pub static C10: &[Group] = &[
    Group { n: |_| PLACES.len() as u32, run: inline },
    Group { n: |_| DOCS.len() as u32, run: document },
    Group { n: |_| KEYS.len() as u32 * 4, run: magic },
    Group { n: |_| 30, run: emacs },
    Group { n: |_| KEYS.len() as u32 * 3, run: no_magic },
    Group { n: |_| KEYS.len() as u32 * 3, run: no_value },
    Group { n: |_| corpus::total(), run: |_, c| { let (v, _) = tmpl::expand(corpus::get(c).t); input(&v); comments(&parse(v)) } },
    Group { n: |t| 3 + t, run: |_, c| comments(&parse(free(c))) },
    Group { n: n_windows, run: |_, c| comments(&parse(window(c))) },
    Group { n: crate::p_long::n, run: |_, c| comments(&parse(crate::p_long::source(c))) },
];

// ---- C11 -----------------------------------------------------------------------------------
struct Log { calls: usize, enc: Vec<u8>, src: Vec<u8> }
struct G(UnsafeCell<Log>);
unsafe impl Sync for G {}
static LOG: G = G(UnsafeCell::new(Log { calls: 0, enc: Vec::new(), src: Vec::new() }));
fn log() -> &'static mut Log { unsafe { &mut *LOG.0.get() } }
fn head(src: &[u8]) -> usize { let mut i = 0; let mut n = if starts(src, 0, b"#!") { 2 } else { 1 }; while i < src.len() { if src[i] == b'\n' { n -= 1; if n == 0 { return i + 1; } } i += 1; } i }
/// what the decoder makes of the program after the encoding comment
const DECODED: &[&[u8]] = &[b"dd", b"", b"d(1)\n# e\n<<A\nx\nA\n", b"dddddd + 1\n"];
fn decode(k: usize, enc: String, src: Vec<u8>) -> DecoderResult {
    let g = log();
    g.calls += 1;
    g.enc = enc.into_bytes();
    let h = head(&src);
    let out = cat(&[&src[..h], DECODED[k]]);
    g.src = src;
    DecoderResult::Ok(out)
}
fn d0(e: String, s: Vec<u8>) -> DecoderResult { decode(0, e, s) }
fn d1(e: String, s: Vec<u8>) -> DecoderResult { decode(1, e, s) }
fn d2(e: String, s: Vec<u8>) -> DecoderResult { decode(2, e, s) }
fn d3(e: String, s: Vec<u8>) -> DecoderResult { decode(3, e, s) }
fn derr(e: String, s: Vec<u8>) -> DecoderResult { decode(0, e, s); DecoderResult::Err(InputError::DecodingError("no".to_string())) }
fn decoder(k: usize) -> Option<Decoder> {
    let l = log();
    l.calls = 0;
    match k { 0 => Some(Decoder::new(Box::new(d0))), 1 => Some(Decoder::new(Box::new(d1))), 2 => Some(Decoder::new(Box::new(d2))), 3 => Some(Decoder::new(Box::new(d3))), 4 => Some(Decoder::new(Box::new(derr))), _ => None }
}
fn upper(b: u8) -> u8 { if b >= b'a' && b <= b'z' { b - 32 } else { b } }
fn builtin(n: &[u8]) -> bool {
    for k in [b"UTF-8".as_slice(), b"ASCII-8BIT", b"BINARY"].iter() {
        if k.len() == n.len() { let mut i = 0; while i < n.len() && upper(n[i]) == k[i] { i += 1; } if i == n.len() { return true; } }
    }
    false
}
fn decode_case(v: Vec<u8>, name: &[u8], kd: usize) {
    input(&v);
    let o = ParserOptions { decoder: decoder(kd), ..opts() };
    let r = Parser::new(v.clone(), o).do_parse();
    let l = log();
    emit_n(l.calls);
    if builtin(name) {
        check(l.calls == 0, "decoder called for an encoding that needs none");
        check(r.input.as_shared_bytes() == &v[..], "input changed although no decoding was needed");
        check(!dump::has_error(&r), "supported encoding rejected");
        check(r.ast.is_some(), "no AST although the encoding is supported");
        return;
    }
    if kd == 5 { check(dump::has_error(&r) && r.ast.is_none(), "unsupported encoding without a decoder accepted"); return; }
    check(l.calls == 1, "decoder not called exactly once");
    check(&l.enc[..] == name, "decoder called with another encoding name");
    check(&l.src[..] == &v[..], "decoder called with another source");
    if kd == 4 { check(dump::has_error(&r) && r.ast.is_none(), "decoding error not reported"); return; }
    let h = head(&v);
    let want = cat(&[&v[..h], DECODED[kd]]);
    check(r.input.as_shared_bytes() == &want[..], "returned input is not what the decoder gave");
    check(!dump::has_error(&r), "decoded program rejected");
    // as if the decoded text had been given with a supported encoding
    let plain = cat(&[&want[..h - 1], b"\n", DECODED[kd]]);
    let mut p = plain.clone();
    let mut i = 0;
    while i < h && !starts(&p, i, name) { i += 1; }
    // same length, but not an encoding comment
    let mut j = 0;
    while j < h { if p[j] == b':' { p[j] = b'.'; } j += 1; }
    let x = parse(p);
    let (a, b) = (dump::ast(&x, true), dump::ast(&r, true));
    if a != b { note(&a); note(&b); fail("decoded program parsed wrongly"); }
}
const NAMES: &[&[u8]] = &[b"utf-8", b"UTF-8", b"ascii-8bit", b"BINARY", b"binary", b"us-ascii", b"koi8-r", b"utf8", b"UTF-16", b"utf-8-mac"];
/// encoding names with one symbolic character, for each decoder and place
fn named(_t: u32, c: u32) {
    let kd = c as usize % 6;
    let name = NAMES[c as usize / 6];
    let p = choose(name.len() + 1);
    let mut n = name.to_vec();
    let h = hole(&VAL);
    if p < n.len() { n[p] = h; } else { n.push(h); }
    let pre: &[u8] = [b"# coding: ".as_slice(), b"#!x\n# encoding:", b"# -*- coding: ", b"  # encoding: ", b"# Encoding: ", b"#CODING:", b"# codinG: "][choose(7)];
    let post: &[u8] = if starts(pre, 0, b"# -*-") { b" -*-\nbb" } else { b"\nbb" };
    decode_case(cat(&[pre, &n, post]), &n, kd)
}
/// letter case does not matter for the built-in names
fn cased(_t: u32, c: u32) {
    let name = [b"utf-8".as_slice(), b"ascii-8bit", b"binary"][c as usize / 2];
    let mut n = vec![];
    for b in name.iter() { if *b >= b'a' && *b <= b'z' { n.push(hole(&Set::of(&[*b, *b - 32]))); } else { n.push(*b); } }
    decode_case(cat(&[b"# encoding: ", &n, b"\nbb"]), &n, if c % 2 == 0 { 0 } else { 5 })
}
/// not at the top: an ordinary magic comment without effect
fn late(_t: u32, c: u32) {
    let pre: &[u8] = [b"a\n# encoding: ".as_slice(), b"a # coding: ", b"\n# encoding: ", b"#!x\n\n# coding: ", b"# c\n# coding: ", b"\"# coding: ", b"<<A\n# coding: ", b"#!x -*- coding: ", b"#! coding: "][c as usize];
    let post: &[u8] = [b"\nbb".as_slice(), b"\nbb", b"\nbb", b"\nbb", b"\nbb", b"\"", b"\nA\n", b" -*-\nbb", b"\nbb"][c as usize];
    let mut n = vec![];
    for _ in 0..2 { n.push(hole(&Set::range(b'a', b'z'))); }
    let v = cat(&[pre, &n, post]);
    input(&v);
    let o = ParserOptions { decoder: decoder(0), ..opts() };
    let r = Parser::new(v.clone(), o).do_parse();
    check(log().calls == 0, "decoder called for a comment that is not at the top");
    check(r.input.as_shared_bytes() == &v[..], "input changed");
    check(!dump::has_error(&r), "an encoding comment that is not at the top causes an error");
}
fn unchanged(v: Vec<u8>) {
    let o = ParserOptions { decoder: decoder(0), ..opts() };
    let r = Parser::new(v.clone(), o).do_parse();
    emit_n(r.tokens.len());
    if r.magic_comments.iter().any(|m| m.kind == MagicCommentKind::Encoding) { lrsym_discard(); }
    check(log().calls == 0, "decoder called without an encoding comment");
    check(r.input.as_shared_bytes() == &v[..], "input changed without an encoding comment");
    check(r.input.into_bytes() == v, "input changed without an encoding comment");
}
pub static C11: &[Group] = &[
    Group { n: |_| NAMES.len() as u32 * 6, run: named },
    Group { n: |_| 6, run: cased },
    Group { n: |_| 9, run: late },
    Group { n: |t| 3 + t, run: |_, c| unchanged(free(c)) },
    Group { n: |_| corpus::total(), run: |_, c| { let (v, _) = tmpl::expand(corpus::get(c).t); input(&v); unchanged(v) } },
    Group { n: |t| if t == 0 { 0 } else { n_windows(t) }, run: |_, c| unchanged(window(c)) },
];

// ---- C23 -----------------------------------------------------------------------------------
fn name() -> String { let mut s = String::new(); s.push(hole(&Set::of(b"ab")) as char); if choose(2) == 1 { s.push('c'); } s }
fn history(t: u32, c: u32) {
    let n = if t == 0 { 6 } else { 8 };
    let e = StaticEnvironment::new();
    let names = ["a", "b", "c", "ab"];
    // model: declared names (bit set) and the stack
    let mut cur = 0u8;
    let mut st: Vec<u8> = vec![];
    let mut ops = vec![];
    for i in 0..n {
        let op = if i == 0 { c as usize % 6 } else { choose(6) };
        ops.push(b'0' + op as u8);
        match op {
            0 | 1 | 2 => { e.declare(names[op]); cur |= 1 << op; }
            3 => { e.extend_static(); st.push(cur); cur = 0; }
            4 => { e.extend_dynamic(); st.push(cur); }
            _ => { if st.is_empty() { lrsym_discard(); } e.unextend(); cur = st.pop().unwrap(); }
        }
        for (k, x) in names.iter().enumerate() { check(e.is_declared(x) == (cur >> k & 1 == 1), "a name is reported as declared although it is not, or the other way round"); }
    }
    input(&ops);
    emit(&ops);
    emit_n(cur as usize);
}
/// arbitrary (symbolic) names
fn sym_names(_t: u32, c: u32) {
    let e = StaticEnvironment::new();
    let (x, y, z) = (name(), name(), name());
    e.declare(&x);
    match c { 0 => {} 1 => e.extend_dynamic(), _ => e.extend_static() }
    e.declare(&y);
    let seen = z == y || (z == x && c < 2);
    input(z.as_bytes());
    check(e.is_declared(&z) == seen, "a name is reported as declared although it is not, or the other way round");
    if c > 0 { e.unextend(); check(e.is_declared(&z) == (z == x), "leaving a scope does not restore the names"); }
    let f = StaticEnvironment::default();
    check(!f.is_declared(&z), "a fresh environment has names");
}
/// variables declared by the caller before parsing
const SEEN: &[(&[u8], &[u8], bool)] = &[(b"", b"", true), (b"a { ", b" }", true), (b"-> { ", b" }", true), (b"->(q) { ", b" }", true), (b"a do |q| ", b" end", true), (b"if a; ", b"; end", true), (b"\"#{", b"}\"", true), (b"while a do ", b" end", true), (b"a(1) + ", b"", true), (b"def m; ", b"; end", false), (b"class A; ", b"; end", false), (b"module A; ", b"; end", false), (b"class << a; ", b"; end", false), (b"def self.m; ", b"; end", false), (b"def m = ", b"", false), (b"a { def m; ", b"; end }", false), (b"a { a { ", b" } }", true), (b"class A; b { ", b" }; end", false), (b"begin; ", b"; rescue; end", true), (b"for q in a do ", b" end", true), (b"case a; when ", b" then b; end", true), (b"BEGIN { ", b" }", true), (b"END { ", b" }", true), (b"def m(q = ", b"); end", false)];
fn caller(_t: u32, c: u32) {
    let (pre, post, open) = SEEN[c as usize];
    let x = [b'v', hole(&Set::range(b'a', b'z'))];
    let y = [b'v', hole(&Set::range(b'a', b'z'))];
    let v = cat(&[pre, &y, post]);
    input(&v);
    let p = Parser::new(v, opts());
    p.static_env.declare(std::str::from_utf8(&x).unwrap());
    let r = p.do_parse();
    check(!dump::has_error(&r), "error");
    let d = dump::ast(&r, false);
    emit(&d);
    let lvar = cat(&[b"(lvar name=\"", &y, b"\")"]);
    let mut found = false;
    let mut i = 0;
    while i < d.len() { if starts(&d, i, &lvar) { found = true; } i += 1; }
    check(found == (open && x == y), "variable declared by the caller seen where it should not be, or not seen where it should be");
    let _ = ast::name;
}
pub static C23: &[Group] = &[
    Group { n: |_| 6, run: history },
    Group { n: |_| 3, run: sym_names },
    Group { n: |_| SEEN.len() as u32, run: caller },
];
