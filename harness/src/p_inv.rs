//! Invariants and metamorphic properties on symbolic windows: C04, C14, C15, C16, C21, C22.
use crate::ast::{self, F};
use crate::p_generic::{cut, free, insert, n_wide, n_windows, spec, window, TOKS};
use crate::p_lex::cat;
use crate::props::*;
use crate::rt::*;
use crate::tmpl::Rec;
use crate::{corpus, dump, tmpl};
use lib_ruby_parser::source::*;
use lib_ruby_parser::*;

// ---- C04 -----------------------------------------------------------------------------------
fn blank(b: u8) -> bool { b == b' ' || (b >= 9 && b <= 13) }
pub fn starts(s: &[u8], at: usize, p: &[u8]) -> bool {
    if at + p.len() > s.len() { return false; }
    let mut i = 0;
    while i < p.len() { if s[at + i] != p[i] { return false; } i += 1; }
    true
}
pub fn starts_in(s: &[u8], p: &[u8]) -> bool { let mut i = 0; while i < s.len() { if starts(s, i, p) { return true; } i += 1; } false }
fn bol(s: &[u8], i: usize) -> bool { i == 0 || s[i - 1] == b'\n' || (i == 3 && starts(s, 0, b"\xef\xbb\xbf")) }
/// s[i..j] holds nothing but layout; `ends`: the program may also end here
pub fn layout(s: &[u8], mut i: usize, j: usize, ends: bool) -> bool {
    while i < j {
        let c = s[i];
        if blank(c) { i += 1; }
        else if c == b'#' { while i < j && s[i] != b'\n' { i += 1; } }
        else if c == b'\\' && i + 1 < j && s[i + 1] == b'\n' { i += 2; }
        else if c == b'\\' && i + 2 < j && s[i + 1] == b'\r' && s[i + 2] == b'\n' { i += 3; }
        else if i == 0 && starts(s, 0, b"\xef\xbb\xbf") { i = 3; }
        else if bol(s, i) && starts(s, i, b"=begin") {
            loop {
                while i < j && s[i] != b'\n' { i += 1; }
                i += 1;
                if i >= j { return false; }
                if starts(s, i, b"=end") && (i + 4 >= s.len() || blank(s[i + 4]) || s[i + 4] == 0 || s[i + 4] == 4 || s[i + 4] == 26) { break; }
            }
            while i < j && s[i] != b'\n' { i += 1; }
        }
        else if ends && (c == 0 || c == 4 || c == 26) { return true; }
        else if ends && bol(s, i) && starts(s, i, b"__END__") && (i + 7 >= s.len() || s[i + 7] == b'\n' || starts(s, i + 7, b"\r\n")) { return true; }
        else { return false; }
    }
    i == j
}
pub fn has(s: &[u8], c: u8) -> bool { let mut i = 0; while i < s.len() { if s[i] == c { return true; } i += 1; } false }
pub fn token_stream(r: &ParserResult) {
    if dump::has_error(r) { return; }
    let s = r.input.as_shared_bytes();
    let n = r.tokens.len();
    check(n > 0, "no tokens");
    check(r.tokens[n - 1].token_name() == "EOF" , "the stream does not end with the end-of-input token");
    let mut heredoc = false;
    let mut ts: Vec<(usize, usize)> = Vec::with_capacity(n);
    for t in r.tokens[..n - 1].iter() {
        let name = t.token_name();
        check(name != "EOF", "an end-of-input token before the end");
        let (b, e) = (t.loc.begin, t.loc.end);
        let v = t.as_bytes();
        if b > e || e > s.len() { fail("token outside of the input"); }
        let text = &s[b..e];
        if (name == "tSTRING_BEG" || name == "tXSTRING_BEG") && starts(v, 0, b"<<") { heredoc = true; }
        emit_n(b * 1000 + e);
        emit(v);
        match name {
            "tNL" | "tSPACE" => {}
            "tLABEL" => check(v.len() + 1 == text.len() && starts(text, 0, v) && text[text.len() - 1] == b':', "label token does not match the source"),
            "tCHAR" => check(b < e && text[0] == b'?', "character token does not match the source"),
            "tSTRING_CONTENT" => if !heredoc && !has(text, b'\\') && !has(text, b'\r') { check(text == &v[..], "string content token does not match the source"); },
            "tSTRING_END" => if !heredoc { check(text == &v[..], "string end token does not match the source"); },
            "tIDENTIFIER" | "tCONSTANT" | "tINTEGER" | "tFLOAT" | "tRATIONAL" | "tIMAGINARY" | "tIVAR" | "tCVAR" | "tGVAR" => check(text == &v[..], "token value does not match the source"),
            _ => check(text == &v[..], "token value does not match the source text"),
        }
        if name != "tNL" { ts.push((b, e)); }
    }
    if heredoc {
        // bodies come before the rest of their line: order by position
        let mut i = 1;
        while i < ts.len() { let mut k = i; while k > 0 && (ts[k - 1].0 > ts[k].0 || (ts[k - 1].0 == ts[k].0 && ts[k - 1].1 > ts[k].1)) { ts.swap(k - 1, k); k -= 1; } i += 1; }
    }
    let mut p = 0;
    for (b, e) in ts.iter() {
        check(*b >= p, "tokens overlap or are out of order");
        check(layout(s, p, *b, heredoc), "source between two tokens is not accounted for");
        p = *e;
    }
    if heredoc && (has(s, 0) || has(s, 4) || has(s, 26)) { return; } // ended on the introducing line
    check(layout(s, p, s.len(), true), "source after the last token is not accounted for");
}
pub static C04: &[Group] = &[
    Group { n: |_| crate::spec_variants::VARIANTS.len() as u32, run: |_, c| spec(&crate::spec_variants::VARIANTS[c as usize], TOKS) },
    Group { n: |_| corpus::wide_total(), run: |_, c| spec(corpus::get(c), TOKS) },
    Group { n: |t| 3 + t, run: |_, c| token_stream(&parse(free(c))) },
    Group { n: n_wide, run: |_, c| token_stream(&parse(window(c))) },
    Group { n: n_wide, run: |_, c| token_stream(&parse(cut(c))) },
    Group { n: crate::p_long::n, run: |_, c| token_stream(&parse(crate::p_long::source(c))) },
];

// ---- C14 -----------------------------------------------------------------------------------
fn result(r: &ParserResult) -> Vec<u8> {
    let mut o = dump::ast(r, true);
    dump::diags(&mut o, &r.diagnostics, true);
    dump::comments(&mut o, r);
    o
}
fn refuse(_: String, _: Vec<u8>) -> DecoderResult { DecoderResult::Err(InputError::DecodingError("refused".to_string())) }
fn options(v: Vec<u8>, twice: bool) {
    let a = parse(v.clone());
    let o = ParserOptions { buffer_name: "other".to_string(), decoder: Some(Decoder::new(Box::new(refuse))), record_tokens: false };
    let b = Parser::new(v.clone(), o).do_parse();
    check(b.tokens.is_empty(), "tokens recorded although recording is off");
    check(b.input.name == "other" && a.input.name == "(eval)", "buffer name lost");
    // the decoder matters only if an encoding other than UTF-8/binary is declared
    let enc = a.magic_comments.iter().any(|m| m.kind == MagicCommentKind::Encoding) || b.magic_comments.iter().any(|m| m.kind == MagicCommentKind::Encoding);
    let (x, y) = (result(&a), result(&b));
    emit(&x);
    if !enc && x != y { note(&x); note(&y); fail("result depends on options that do not concern it"); }
    if !enc { check(a.input.as_shared_bytes() == b.input.as_shared_bytes(), "input depends on options that do not concern it"); }
    if twice {
        let c = parse(v);
        check(dump::all(&a) == dump::all(&c), "parsing the same input twice gives different results");
    }
}
pub static C14: &[Group] = &[
    Group { n: |_| corpus::total(), run: |_, c| {
        let (v, _) = tmpl::expand(corpus::get(c).t);
        input(&v);
        options(v.clone(), true);
        let a = parse(v.clone());
        if !dump::has_error(&a) {
            let b = Parser::new(v, opts()).do_parse_with_state_validation();
            check(dump::all(&a) == dump::all(&b), "validating the final state changes the result");
        }
    } },
    Group { n: |_| 3, run: |_, c| options(free(c), true) },
    Group { n: n_windows, run: |t, c| options(window(c), t > 0) },
    Group { n: |t| if t == 0 { 0 } else { n_wide(t) }, run: |t, c| options(cut(c), t > 0) },
    Group { n: crate::p_long::n, run: |_, c| { if crate::p_long::encoding(c) { return; } options(crate::p_long::source(c), false) } },
];

// ---- C22 -----------------------------------------------------------------------------------
fn contract(r: &ParserResult) {
    let mut err = false;
    for d in r.diagnostics.iter() {
        let e = d.level == ErrorLevel::Error;
        check(d.is_error() == e && d.is_warning() != e, "severity predicates disagree with the level");
        err |= e;
    }
    emit_n(err as usize);
    if err { return; }
    let s = r.input.as_shared_bytes();
    if r.ast.is_none() {
        let mut p = 0;
        for t in r.tokens.iter() {
            let n = t.token_name();
            check(n == "tNL" || n == "tSEMI" || n == "EOF", "no AST and no error for a program that is not empty");
            if n != "tSEMI" { continue; }
            check(layout(s, p, t.loc.begin, true), "no AST and no error for a program that is not empty");
            p = t.loc.end;
        }
        check(layout(s, p, s.len(), true), "no AST and no error for a program that is not empty");
    }
    // brackets and string delimiters of an accepted program match
    let mut st: Vec<u8> = vec![];
    for t in r.tokens.iter() {
        let n = t.token_name();
        let (open, close) = match n {
            "tLPAREN" | "tLPAREN2" | "tLPAREN_ARG" => (b'(', 0),
            "tLBRACK" | "tLBRACK2" => (b'[', 0),
            "tLBRACE" | "tLCURLY" | "tLBRACE_ARG" | "tLAMBEG" => (b'{', 0),
            "tSTRING_DBEG" => (b'#', 0),
            "tSTRING_BEG" | "tXSTRING_BEG" | "tREGEXP_BEG" | "tWORDS_BEG" | "tQWORDS_BEG" | "tSYMBOLS_BEG" | "tQSYMBOLS_BEG" => (b'"', 0),
            "tSYMBEG" => (if t.as_bytes().len() > 1 { b'"' } else { 0 }, 0),
            "tRPAREN" => (0, b'('),
            "tRBRACK" => (0, b'['),
            "tRCURLY" => (0, b'{'),
            "tSTRING_DEND" => (0, b'#'),
            "tSTRING_END" | "tREGEXP_END" | "tLABEL_END" => (0, b'"'),
            _ => (0, 0),
        };
        if open != 0 { st.push(open); }
        if close != 0 { match st.pop() { Some(o) if o == close => {} _ => fail("mismatched brackets accepted") } }
    }
    check(st.is_empty(), "unclosed brackets accepted");
}
/// a program that must be rejected, alone or with something harmless around it
fn reject(_t: u32, c: u32) {
    let (t, text) = crate::spec_reject::REJECT[c as usize];
    let (mut v, _) = tmpl::expand(t);
    match choose(5) {
        0 => {}
        1 => { if v[0] == b'.' || v[0] == b'&' { return; } v = cat(&[b"q9\n", &v]); }
        2 => { if v[v.len() - 1] == b'\\' { return; } v.push(b'\n'); }
        3 => { if v[v.len() - 1] == b'\\' { return; } v.extend_from_slice(b"\n\n# c\n"); }
        _ => { if v[0] == b'.' || v[0] == b'&' || v[v.len() - 1] == b'\\' { return; } v = cat(&[b"def q8; q9; end;", &v]); v.extend_from_slice(b" \n"); }
    }
    input(&v);
    let r = parse(v);
    emit_n(r.diagnostics.len());
    if !dump::has_error(&r) {
        let mut m = String::from("a broken program is accepted: ");
        m.push_str(text);
        fail(&m);
    }
}
pub static C22: &[Group] = &[
    Group { n: |_| crate::spec_reject::REJECT.len() as u32, run: reject },
    Group { n: |t| 3 + t, run: |_, c| contract(&parse(free(c))) },
    Group { n: n_wide, run: |_, c| contract(&parse(window(c))) },
    Group { n: n_wide, run: |_, c| contract(&parse(cut(c))) },
    Group { n: n_wide, run: |_, c| { let r = parse(insert(c)); contract(&r); crate::p_tree::tree(&r, false) } },
    Group { n: crate::p_long::n, run: |_, c| { let r = parse(crate::p_long::source(c)); contract(&r); if r.input.as_shared_bytes().len() < 3000 { crate::p_tree::tree(&r, false) } } },
];

// ---- C16 -----------------------------------------------------------------------------------
const MARK: &[&[u8]] = &[b"\n__END__\n", b"\n__END__\r\n", b"\n\0", b"\n\x04", b"\n\x1a", b" \0", b" \x04"];
fn after_end(t: u32, c: u32) {
    let a = tmpl::sample(corpus::get(c / MARK.len() as u32).t);
    let m = MARK[c as usize % MARK.len()];
    if (has(&a, b'#') || starts_in(&a, b"<<")) && m[0] == b' ' { return; } // may end in a comment or a heredoc terminator
    let alone = parse(a.clone());
    if dump::has_error(&alone) { return; }
    let base = cat(&[&a, m]);
    let mut v = base.clone();
    for _ in 0..2 + t { v.push(hole(&Set::any())); }
    input(&v);
    let x = parse(base);
    let y = parse(v);
    let (s, d) = (dump::ast(&alone, false), dump::ast(&x, false));
    emit(&d);
    if s != d { note(&s); note(&d); fail("the end marker changes the program before it"); }
    let (mut p, mut q) = (result(&x), result(&y));
    dump::tokens(&mut p, &x.tokens);
    dump::tokens(&mut q, &y.tokens);
    if p != q { note(&p); note(&q); fail("text after the end of the program matters"); }
}
/// the line `__END__` with arbitrary bytes around it, followed by a syntax error
fn near_miss(_t: u32, c: u32) {
    let (pre, post): (usize, usize) = [(0, 1), (1, 0), (1, 1), (0, 2)][c as usize];
    let mut v = b"a\n".to_vec();
    let p = v.len();
    for _ in 0..pre { v.push(hole(&Set::any())); }
    let q = v.len();
    v.extend_from_slice(b"__END__");
    let e = v.len();
    for _ in 0..post { v.push(hole(&Set::any())); }
    v.extend_from_slice(b"\n)]})");
    input(&v);
    // does the program end before the `)`? (preconditions exclude NUL, ^D, ^Z and comments)
    let mut i = p;
    while i < v.len() { if v[i] == 0 || v[i] == 4 || v[i] == 26 || v[i] == b'#' { lrsym_discard(); } i += 1; }
    let line_start = q == p || v[q - 1] == b'\n';
    let line_end = v[e] == b'\n' || (v[e] == b'\r' && v[e + 1] == b'\n');
    if pre == 1 && !line_start && (v[p] == b'?' || v[p] == b'%') { lrsym_discard(); }
    let ends = line_start && line_end;
    let r = parse(v);
    check(dump::has_error(&r) != ends, if ends { "__END__ does not end the program" } else { "something that is not __END__ ends the program" });
}
pub static C16: &[Group] = &[
    Group { n: |_| corpus::total() * MARK.len() as u32, run: after_end },
    Group { n: |_| 4, run: near_miss },
    Group { n: |t| crate::p_long::n_some(crate::p_long::L16, t), run: |t, c| crate::p_long::some(crate::p_long::L16, t, c) },
];

// ---- C21 -----------------------------------------------------------------------------------
pub fn statements(r: &ParserResult) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let a = match &r.ast { Some(a) => &**a, None => return out };
    let mut bare = ast::name(a) == "begin";
    ast::fields(a, &mut |n, f| match f { F::MLoc(Some(_)) if n == "begin_l" || n == "end_l" => bare = false, _ => {} });
    if !bare { let mut o = vec![]; dump::node(&mut o, a, false); out.push(o); return out; }
    ast::fields(a, &mut |_, f| if let F::L(l) = f { for x in l.iter() { let mut o = vec![]; dump::node(&mut o, x, false); out.push(o); } });
    out
}
/// statements that are sensitive to what the parser remembers
const PROBES: &[&[u8]] = &[
    b"while qqa do qqb end", b"qqa qqb do |qqx| end", b"class Qqa; QQB = 1; end", b"module Qqa; end", b"->(qqx) do end", b"-> do qqb end", b"qqa { _1 }", b"qqa ? qqb : qqc",
    b"def qqa(...) qqb(...) end", b"qqa / 1", b"QQB = 1", b"\"#{qqa}\"", b"def qqa(qqy = 1) qqy end", b"case qqa\nin {qqy:} then 1\nend", b"def qqa qqx, qqy = 1; end",
    b"qqa { |qqx; qqz| }", b"BEGIN { 1 }", b"qqa [1]", b"qqa -1", b"qqa *qqb", b"qqa (1), 2", b"def qqa(&) qqb(&) end", b"until qqa do end", b"for qqx in qqa do end",
    b"qqa qqb: 1", b"{qqa: 1}", b"[qqa, 1\n]", b"qqa(\n1\n)", b"qqa if qqb", b"begin; 1; end while qqa", b"return", b"alias qqa qqb", b"undef qqa", b"qqv = 1\nqqv", b"qqc => {qqd:}",
    b"qqa !qqb", b"qqa &qqb", b"qqa :qqb", b"qqa %w[a]", b"qqa ?a", b"def self.qqa; yield; end", b"<<QQ\nx\nQQ", b"qqa.qqb do end", b"p qqa do end", b"if qqa then qqb end", b"case qqa when 1 then 2 end",
    b"qqa ->(qqx) { qqx } do end", b"qqa \"b\": 1", b"def qqa = qqb", b"class << self; end", b"qqa ::Qqb", b"qqa::Qqb",
];
/// A, newline, probe: the statements of A, then those of the probe
fn follow(t: u32, c: u32) {
    let np = PROBES.len() as u32;
    let rec = corpus::get(if t == 0 { c } else { c / np });
    let (a, _) = tmpl::expand(rec.t);
    if starts_in(&a, b"__END__") || has(&a, 0) || has(&a, 4) || has(&a, 26) { return; }
    if a.len() > 1 && a[a.len() - 1] == b'.' && a[a.len() - 2] == b'.' { return; } // an endless range takes the next line
    input(&a);
    let ra = parse(a.clone());
    if dump::has_error(&ra) { return; }
    let rv = Parser::new(a.clone(), opts()).do_parse_with_state_validation();
    drop(rv);
    let mut tail: Vec<u8> = vec![];
    if t == 0 { for p in PROBES.iter() { tail.extend_from_slice(p); tail.push(b'\n'); } } else { tail.extend_from_slice(PROBES[(c % np) as usize]); }
    let rb = parse(tail.clone());
    let v = cat(&[&a, b"\n", &tail]);
    input(&v);
    let r = parse(v);
    if dump::has_error(&r) { fail("two programs that are fine alone give an error when joined"); }
    let mut want = statements(&ra);
    want.append(&mut statements(&rb));
    let got = statements(&r);
    let mut i = 0;
    while i < got.len() && i < want.len() {
        if got[i] != want[i] { note(&want[i]); note(&got[i]); fail("a statement changes how another one is parsed"); }
        i += 1;
    }
    check(got.len() == want.len(), "statements are lost or invented when programs are joined");
}
fn balanced(v: Vec<u8>) {
    let r = parse(v.clone());
    emit_n(r.tokens.len());
    if !dump::has_error(&r) { let r = Parser::new(v, opts()).do_parse_with_state_validation(); emit_n(r.tokens.len()); }
}
pub static C21: &[Group] = &[
    Group { n: |t| corpus::total() * if t == 0 { 1 } else { PROBES.len() as u32 }, run: follow },
    Group { n: |t| 3 + t, run: |_, c| balanced(free(c)) },
    Group { n: crate::p_nest::n_deep, run: crate::p_nest::deep },
    Group { n: n_windows, run: |_, c| balanced(window(c)) },
    Group { n: |t| if t == 0 { 0 } else { crate::p_nest::n(t) }, run: crate::p_nest::state },
    Group { n: crate::p_long::n, run: |_, c| balanced(crate::p_long::source(c)) },
];

// ---- C15 -----------------------------------------------------------------------------------
fn shape_same(a: &[u8], v: Vec<u8>, what: &str) {
    let (x, y) = (parse(a.to_vec()), parse(v.clone()));
    if dump::has_error(&x) { return; }
    input(&v);
    if dump::has_error(&y) { let mut o = vec![]; dump::diags(&mut o, &y.diagnostics, true); note(&o); fail(what); }
    let (p, q) = (dump::ast(&x, false), dump::ast(&y, false));
    emit(&q);
    if p != q { note(&p); note(&q); fail(what); }
}
fn ends_program(a: &[u8]) -> bool { starts_in(a, b"__END__") || has(a, 0) || has(a, 4) || has(a, 26) }
/// whole-file layout
fn around(_t: u32, c: u32) {
    let (a, _) = tmpl::expand(corpus::get(c).t);
    let bl = Set::of(b" \t\x0c\x0b\r");
    let n = choose(9);
    let at_bol = a.len() > 0 && a[0] == b'=';
    let v = match n {
        0 => cat(&[&a, b"\n"]),
        1 => { let mut v = vec![]; for i in 0..a.len() { if a[i] == b'\n' && !(i > 0 && a[i - 1] == b'\r') { v.push(b'\r'); } v.push(a[i]); } v.extend_from_slice(b"\r\n"); v }
        2 => cat(&[b"\xef\xbb\xbf", &a]),
        3 => cat(&[b"#!/usr/bin/ruby\n", &a]),
        4 => { let h = hole(&bl); cat(&[b"\n", &[h], b"\n", &a]) }
        5 => cat(&[b"# c\n=begin\nc\n=end\n", &a]),
        6 => { let h = hole(&bl); if at_bol { return; } cat(&[&[h], &a]) }
        7 => { let h = hole(&bl); cat(&[&a, b"\n", &[h]]) }
        _ => cat(&[&a, b"\n# c\n\n;"]),
    };
    if (n == 7 || n == 8) && (a.len() > 1 && a[a.len() - 1] == b'.' && a[a.len() - 2] == b'.') && n == 8 { return; }
    // a magic comment has to stay on the first line, an __END__ marker is not layout
    if ends_program(&a) { return; }
    shape_same(&a, v, ["final newline matters", "CRLF line ends matter", "byte-order mark matters", "shebang line matters", "leading blank line matters", "leading comment matters", "leading blank matters", "trailing blank line matters", "trailing comment or semicolon matters"][n]);
}
const AFTER: &[&str] = &["tCOMMA", "tEQL", "tOP_ASGN", "tANDOP", "tOROP", "tDOT", "tANDDOT", "tEQ", "tEQQ", "tNEQ", "tMATCH", "tNMATCH", "tGT", "tGEQ", "tLT", "tLEQ", "tPLUS", "tMINUS", "tSTAR2", "tDIVIDE", "tPERCENT", "tPOW", "tLSHFT", "tRSHFT", "tPIPE", "tAMPER2", "tCARET", "tCMP", "tLPAREN", "tLPAREN2", "tLBRACK", "tLBRACK2", "tLBRACE", "tLCURLY", "tASSOC", "kAND", "kOR", "kNOT", "tEH"];
/// layout between two tokens: every blank position of every construct
fn between(_t: u32, c: u32) {
    let (rec, p) = corpus::at(c);
    let p = p as usize;
    let a = tmpl::sample(rec.t);
    if p >= a.len() || ends_program(&a) { return; }
    let r = parse(a.clone());
    if dump::has_error(&r) { return; }
    // what is at p?
    let (mut inside, mut prev, mut before, mut heredoc, mut ptext) = (false, "", "", false, 0usize);
    for t in r.tokens.iter() {
        if t.token_name() == "tNL" || t.token_name() == "EOF" { continue; }
        if (t.token_name() == "tSTRING_BEG" || t.token_name() == "tXSTRING_BEG") && starts(t.as_bytes(), 0, b"<<") { heredoc = true; }
        if t.loc.begin <= p && p < t.loc.end { inside = true; }
        if t.loc.end <= p && t.loc.end >= ptext { before = prev; prev = t.token_name(); ptext = t.loc.end; }
    }
    for k in r.comments.iter() { if k.location.begin <= p && p < k.location.end { inside = true; } }
    if inside || heredoc { return; }
    // a leading dot continues the line before it, a backslash joins lines
    let mut i = p;
    while i < a.len() && blank(a[i]) { i += 1; }
    let leading = i < a.len() && (a[i] == b'.' || starts(&a, i, b"&."));
    let mut i = p;
    while i > 0 && a[i - 1] == b' ' { i -= 1; }
    let indent = i == 0 || a[i - 1] == b'\n';
    if p > 0 && a[p - 1] == b'\\' { return; }
    let with = |x: &[u8]| cat(&[&a[..p], x, &a[p + 1..]]);
    if a[p] == b' ' {
        if choose(2) == 0 {
            let h = hole(&Set::of(b" \t\x0c\x0b\r"));
            let g = hole(&Set::of(b" \t\x0c\x0b\r"));
            shape_same(&a, with(&[h, g]), "blanks between tokens matter");
        } else if !indent {
            shape_same(&a, with(b" \\\n "), "a backslash-newline between tokens matters");
        }
        for k in AFTER.iter() { if *k == prev && before != "tDOT" && before != "tANDDOT" && before != "kDEF" && before != "tSYMBEG" && before != "tCOLON2" && before != "kALIAS" && before != "kUNDEF" { shape_same(&a, with(b"\n"), "a line break after an operator matters"); shape_same(&a, with(b" # c\n\n "), "a comment after an operator matters"); } }
    }
    if a[p] == b'\n' && prev != "" && !leading {
        shape_same(&a, with(b" # c\n"), "a comment at the end of a line matters");
        let h = hole(&Set::of(b" \t\x0c\x0b\r\n"));
        if a.len() > p + 1 && a[p + 1] != b'=' { shape_same(&a, with(&[b'\n', h]), "indentation matters"); }
        shape_same(&a, with(&[h, b'\n']), "blanks at the end of a line matter");
    }
}
/// a line break, comments and blank lines before a leading dot
fn dots(_t: u32, c: u32) {
    let rec = corpus::get(c);
    let a = tmpl::sample(rec.t);
    let r = parse(a.clone());
    if dump::has_error(&r) { return; }
    for t in r.tokens.iter() {
        let n = t.token_name();
        if n != "tDOT" && n != "tANDDOT" { continue; }
        let p = t.loc.begin;
        if p == 0 || a[p - 1] == b' ' || a[p - 1] == b'\n' { continue; }
        let (x, y) = (&a[..p], &a[p..]);
        // not inside of a string, a heredoc or a def name
        if starts_in(x, b"def ") || has(x, b'"') || starts_in(x, b"<<") || starts_in(x, b"alias") { continue; }
        shape_same(&a, cat(&[x, b"\n", y]), "a line break before a leading dot matters");
        shape_same(&a, cat(&[x, b"\n  # c\n \t", y]), "a comment before a leading dot matters");
        shape_same(&a, cat(&[x, b" # c\n", y]), "a comment before a leading dot matters");
    }
}
pub static C15: &[Group] = &[
    Group { n: |_| corpus::total(), run: around },
    Group { n: n_windows, run: between },
    Group { n: |_| corpus::total(), run: dots },
    Group { n: |t| crate::p_long::n_some(crate::p_long::L15, t), run: |t, c| crate::p_long::some(crate::p_long::L15, t, c) },
];
