//! Properties: dispatch.
use crate::rt::*;
use crate::{dump, tmpl};
use lib_ruby_parser::*;

pub fn opts() -> ParserOptions { ParserOptions { record_tokens: true, ..Default::default() } }
pub fn parse(v: Vec<u8>) -> ParserResult { Parser::new(v, opts()).do_parse() }
pub fn input(v: &[u8]) { lrsym_input(v.as_ptr(), v.len()) }

/// a family of cases: number of cases (by tier) and the check for one of them
pub struct Group { pub n: fn(u32) -> u32, pub run: fn(u32, u32) }

fn groups(p: u32) -> &'static [Group] {
    match p {
        1 => crate::p_generic::C01,
        2 => crate::p_generic::C02,
        3 => crate::p_generic::C03,
        5 => crate::p_lex::C05,
        6 => crate::p_lex::C06,
        4 => crate::p_inv::C04,
        13 => crate::p_rules::C13,
        14 => crate::p_inv::C14,
        16 => crate::p_inv::C16,
        21 => crate::p_inv::C21,
        15 => crate::p_inv::C15,
        22 => crate::p_inv::C22,
        10 => crate::p_src::C10,
        11 => crate::p_src::C11,
        12 => crate::p_src::C12,
        23 => crate::p_src::C23,
        8 => crate::p_ops::C08,
        9 => crate::p_lit::C09,
        17 => crate::p_word::C17,
        7 => crate::p_scope::C07,
        18 => crate::p_lit::C18,
        19 => crate::p_lit::C19,
        20 => crate::p_generic::C20,
        26 => crate::p_warn::C26,
        _ => &[],
    }
}
pub fn cases(p: u32, t: u32) -> u32 {
    let mut n = 0;
    for g in groups(p).iter() { n += (g.n)(t); }
    n
}
pub fn entry(p: u32, t: u32, mut c: u32) {
    for g in groups(p).iter() {
        let n = (g.n)(t);
        if c < n { return (g.run)(t, c); }
        c -= n;
    }
}
/// development: expectations for a template
pub fn gen(t: &[u8]) -> String {
    let hex = |b: &[u8]| b.iter().map(|x| format!("{:02x}", x)).collect::<String>();
    let mut out = String::from("OK");
    for k in 0..4 {
        let f = |s: Vec<u8>| -> Vec<u8> {
            let r = parse(s);
            match k {
                0 => dump::ast(&r, false),
                1 => dump::ast(&r, true),
                2 => { let mut o = vec![]; dump::diags(&mut o, &r.diagnostics, true); dump::comments(&mut o, &r); o }
                _ => { let mut o = vec![]; dump::tokens(&mut o, &r.tokens); o }
            }
        };
        match tmpl::generalise(t, &f) {
            Ok(v) => { out.push(' '); out.push_str(&hex(&v)); }
            Err(e) => return format!("ERR {}", e.replace('\n', "\\n")),
        }
    }
    out
}
