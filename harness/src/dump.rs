//! Uniform textual dump of parse results.
use crate::ast::{self, F};
use lib_ruby_parser::*;
use lib_ruby_parser::source::*;

pub fn num(out: &mut Vec<u8>, mut n: usize) {
    let mut b = [0u8; 20];
    let mut i = 20;
    loop {
        i -= 1;
        b[i] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 { break; }
    }
    out.extend_from_slice(&b[i..]);
}
pub fn loc(out: &mut Vec<u8>, l: &Loc) {
    num(out, l.begin);
    out.push(b'-');
    num(out, l.end);
}
/// kinds, names, values and order; with `locs` also every location
pub fn node(out: &mut Vec<u8>, n: &Node, locs: bool) {
    out.push(b'(');
    out.extend_from_slice(ast::name(n).as_bytes());
    ast::fields(n, &mut |name, f| match f {
        F::N(x) => { key(out, name); node(out, x, locs); }
        F::M(Some(x)) => { key(out, name); node(out, x, locs); }
        F::M(None) => {}
        F::L(l) => {
            key(out, name);
            out.push(b'[');
            for (i, x) in l.iter().enumerate() {
                if i > 0 { out.push(b' '); }
                node(out, x, locs);
            }
            out.push(b']');
        }
        F::S(s) | F::MS(Some(s)) => { key(out, name); out.push(b'"'); out.extend_from_slice(s); out.push(b'"'); }
        F::MS(None) => {}
        F::U(u) => { key(out, name); num(out, u as usize); }
        F::Loc(l) => if locs { key(out, &name[..name.len() - 2]); loc(out, &l); },
        F::MLoc(Some(l)) => if locs { key(out, &name[..name.len() - 2]); loc(out, &l); },
        F::MLoc(None) => {}
    });
    out.push(b')');
}
fn key(out: &mut Vec<u8>, k: &str) {
    out.push(b' ');
    out.extend_from_slice(k.as_bytes());
    out.push(b'=');
}
pub fn ast(r: &ParserResult, locs: bool) -> Vec<u8> {
    let mut out = Vec::with_capacity(256);
    match &r.ast {
        Some(n) => node(&mut out, n, locs),
        None => out.extend_from_slice(b"none"),
    }
    out
}
pub fn has_error(r: &ParserResult) -> bool { r.diagnostics.iter().any(|d| d.level == ErrorLevel::Error) }
pub fn diags(out: &mut Vec<u8>, ds: &[Diagnostic], msgs: bool) {
    for d in ds.iter() {
        out.extend_from_slice(if d.level == ErrorLevel::Error { b"\nE " } else { b"\nW " });
        loc(out, &d.loc);
        if msgs { out.push(b' '); out.extend_from_slice(d.message.render().as_bytes()); }
    }
}
pub fn tokens(out: &mut Vec<u8>, ts: &[Token]) {
    for t in ts.iter() {
        out.push(b'\n');
        out.extend_from_slice(t.token_name().as_bytes());
        out.push(b' ');
        loc(out, &t.loc);
        out.push(b' ');
        out.extend_from_slice(t.as_bytes());
    }
}
pub fn comments(out: &mut Vec<u8>, r: &ParserResult) {
    for c in r.comments.iter() {
        out.extend_from_slice(match c.kind { CommentType::Document => b"\n=begin ", CommentType::Inline => b"\n# ", CommentType::Unknown => b"\n? " });
        loc(out, &c.location);
    }
    for m in r.magic_comments.iter() {
        out.extend_from_slice(match m.kind {
            MagicCommentKind::Encoding => b"\nencoding ".as_slice(),
            MagicCommentKind::FrozenStringLiteral => b"\nfrozen ",
            MagicCommentKind::WarnIndent => b"\nwarn_indent ",
            MagicCommentKind::ShareableConstantValue => b"\nshareable ",
        });
        loc(out, &m.key_l);
        out.push(b' ');
        loc(out, &m.value_l);
    }
}
/// everything of a result
pub fn all(r: &ParserResult) -> Vec<u8> {
    let mut out = ast(r, true);
    diags(&mut out, &r.diagnostics, true);
    tokens(&mut out, &r.tokens);
    comments(&mut out, r);
    out.extend_from_slice(r.input.as_shared_bytes());
    out
}
