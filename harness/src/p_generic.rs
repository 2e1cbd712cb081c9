//! Properties of every parse result, on symbolic windows over the construct corpus.
use crate::ast::{self, F};
use crate::props::*;
use crate::rt::*;
use crate::spec_variants::VARIANTS;
use crate::{corpus, dump, tmpl};
use lib_ruby_parser::*;

/// source number `i`: the corpus entry with the byte at one position arbitrary
pub fn window(i: u32) -> Vec<u8> {
    let (r, p) = corpus::at(i);
    let mut v = tmpl::sample(r.t);
    let h = hole(&Set::any());
    if (p as usize) < v.len() { v[p as usize] = h; } else { v.push(h); }
    input(&v);
    v
}
/// source number `i`: the corpus entry cut off at one position, its last byte arbitrary
pub fn cut(i: u32) -> Vec<u8> {
    let (r, p) = corpus::at(i);
    let mut v = tmpl::sample(r.t);
    v.truncate(p as usize);
    v.push(hole(&Set::any()));
    input(&v);
    v
}
/// source number `i`: the corpus entry with an arbitrary byte inserted at one position
pub fn insert(i: u32) -> Vec<u8> {
    let (r, p) = corpus::at(i);
    let mut v = tmpl::sample(r.t);
    v.insert(p as usize, hole(&Set::any()));
    input(&v);
    v
}
/// source number `i`: the corpus entry with a two-byte character at one position: instead of the byte there, or before it
pub fn letter(i: u32) -> Vec<u8> {
    let (r, p) = corpus::at(i);
    let mut v = tmpl::sample(r.t);
    let p = p as usize;
    if choose(2) == 0 && p < v.len() { v[p] = 0xc3; } else { v.insert(p, 0xc3); }
    v.insert(p + 1, hole(&Set::range(0x80, 0xbf)));
    input(&v);
    v
}
pub fn free(n: u32) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..n { v.push(hole(&Set::any())); }
    input(&v);
    v
}
pub fn n_windows(_t: u32) -> u32 { corpus::positions() }
pub fn n_wide(t: u32) -> u32 { corpus::wide_positions(if t == 0 { 4 } else { 6 }) }
pub fn n_free(t: u32) -> u32 { if t == 0 { 3 } else { 4 } }

// ---- C01 -----------------------------------------------------------------------------------
fn use_everything(r: &ParserResult) {
    for d in r.diagnostics.iter() {
        let s = d.render(&r.input);
        emit(s.unwrap_or_default().as_bytes());
    }
    // line numbers are searched from the start: of a long program only some tokens are looked up
    let step = 1 + r.tokens.len() / 512;
    for t in r.tokens.iter().step_by(step) { loc_use(&t.loc, r); }
    for d in r.diagnostics.iter() { loc_use(&d.loc, r); }
    for c in r.comments.iter() { loc_use(&c.location, r); }
    if let Some(a) = &r.ast {
        emit_n(a.inspect(0).len());
    }
}
fn loc_use(l: &Loc, r: &ParserResult) {
    emit_n(l.begin_line_col(&r.input).map(|x| x.0 * 1000 + x.1).unwrap_or(9999999));
    emit_n(l.source(&r.input).map(|s| s.len()).unwrap_or(9999));
}
pub static C01: &[Group] = &[
    Group { n: n_free, run: |_, c| use_everything(&parse(free(c))) },
    Group { n: n_wide, run: |_, c| { let r = parse(window(c)); use_everything(&r) } },
    Group { n: n_wide, run: |_, c| use_everything(&parse(cut(c))) },
    Group { n: n_wide, run: |_, c| use_everything(&parse(letter(c))) },
    Group { n: crate::p_long::n, run: |_, c| use_everything(&parse(crate::p_long::source(c))) },
];

// ---- C02 -----------------------------------------------------------------------------------
fn valid(l: &Loc, n: usize, what: &str) {
    if l.begin > l.end || l.end > n { fail(what); }
    emit_n(l.begin * 1000 + l.end);
}
fn node_locs(x: &Node, n: usize) {
    ast::fields(x, &mut |_, f| match f {
        F::N(c) => node_locs(c, n),
        F::M(Some(c)) => node_locs(c, n),
        F::L(l) => for c in l.iter() { node_locs(c, n) },
        F::Loc(l) => valid(&l, n, "AST location outside of the input"),
        F::MLoc(Some(l)) => valid(&l, n, "AST location outside of the input"),
        _ => {}
    });
}
pub fn locs_valid(r: &ParserResult) {
    let n = r.input.as_shared_bytes().len();
    for t in r.tokens.iter() { valid(&t.loc, n, "token location outside of the input"); }
    for d in r.diagnostics.iter() { valid(&d.loc, n, "diagnostic location outside of the input"); }
    for c in r.comments.iter() { valid(&c.location, n, "comment location outside of the input"); }
    for c in r.magic_comments.iter() { valid(&c.key_l, n, "magic comment location outside of the input"); valid(&c.value_l, n, "magic comment location outside of the input"); }
    if let Some(a) = &r.ast { node_locs(a, n); }
}
pub static C02: &[Group] = &[
    Group { n: n_free, run: |_, c| locs_valid(&parse(free(c))) },
    Group { n: n_wide, run: |_, c| locs_valid(&parse(window(c))) },
    Group { n: n_wide, run: |_, c| locs_valid(&parse(cut(c))) },
    Group { n: n_wide, run: |_, c| locs_valid(&parse(letter(c))) },
    Group { n: crate::p_long::n, run: |_, c| locs_valid(&parse(crate::p_long::source(c))) },
];

// ---- specified programs ------------------------------------------------------------------------
pub const SHAPE: u8 = 1;
pub const FULL: u8 = 2;
pub const DIAG: u8 = 4;
pub const TOKS: u8 = 8;
fn same(want: &[u8], holes: &[u8], got: &[u8], msg: &str) {
    emit(got);
    if !tmpl::matches(want, holes, got) { note(&tmpl::subst(want, holes)); note(got); fail(msg); }
}
/// the result for this template, for all values of its holes, is the specified one
pub fn spec(rec: &tmpl::Rec, what: u8) {
    let (src, holes) = tmpl::expand(rec.t);
    input(&src);
    let r = parse(src);
    if what & SHAPE != 0 { same(rec.shape, &holes, &dump::ast(&r, false), "tree differs from its specification"); }
    if what & FULL != 0 { same(rec.full, &holes, &dump::ast(&r, true), "tree with locations differs from its specification"); }
    if what & DIAG != 0 {
        let mut o = vec![];
        dump::diags(&mut o, &r.diagnostics, true);
        dump::comments(&mut o, &r);
        same(rec.diag, &holes, &o, "diagnostics or comments differ from their specification");
    }
    if what & TOKS != 0 {
        let mut o = vec![];
        dump::tokens(&mut o, &r.tokens);
        same(rec.toks, &holes, &o, "tokens differ from their specification");
    }
}
fn n_variants(_t: u32) -> u32 { VARIANTS.len() as u32 }
fn variant(c: u32, what: u8) { spec(&VARIANTS[c as usize], what) }
/// a listed program gives an error exactly if it is listed as one that does
pub fn accepted(_t: u32, c: u32) {
    let n = corpus::wide_total();
    let r = if c < n { corpus::get(c) } else { &VARIANTS[(c - n) as usize] };
    let (src, _) = tmpl::expand(r.t);
    input(&src);
    let got = parse(src);
    emit_n(got.diagnostics.len());
    let mut want = false;
    let mut bol = true;
    for (i, b) in r.diag.iter().enumerate() { if bol && *b == b'E' && i + 1 < r.diag.len() && r.diag[i + 1] == b' ' { want = true; } bol = *b == b'\n'; }
    if dump::has_error(&got) && !want { let mut o = vec![]; dump::diags(&mut o, &got.diagnostics, true); note(&o); fail("a correct program is rejected"); }
    if want && !dump::has_error(&got) { fail("a program that breaks a rule is accepted"); }
}
pub fn n_accepted(_t: u32) -> u32 { corpus::wide_total() + VARIANTS.len() as u32 }
pub static C03: &[Group] = &[
    Group { n: n_variants, run: |_, c| variant(c, FULL) },
    Group { n: |_| corpus::wide_total(), run: |_, c| spec(corpus::get(c), FULL) },
    Group { n: crate::p_nest::n, run: crate::p_nest::full },
    Group { n: n_wide, run: |_, c| crate::p_tree::tree(&parse(window(c)), true) },
    Group { n: crate::p_long::n, run: |_, c| { let v = crate::p_long::source(c); if v.len() < 3000 { crate::p_tree::tree(&parse(v), true) } } },
];
pub static C20: &[Group] = &[
    Group { n: n_variants, run: |_, c| variant(c, SHAPE) },
    Group { n: |_| corpus::total(), run: |_, c| spec(corpus::get(c), SHAPE) },
    Group { n: crate::p_nest::n, run: crate::p_nest::shape },
    Group { n: n_wide, run: |_, c| crate::p_tree::tree(&parse(window(c)), false) },
    Group { n: crate::p_ops::n_conditions, run: crate::p_ops::conditions },
    Group { n: crate::p_long::n, run: crate::p_long::shape },
];
