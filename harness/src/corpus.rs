//! The construct table, as one list.
use crate::spec_constructs::*;
use crate::spec_topics::*;
use crate::tmpl::Rec;
/// further programs, for the properties of every parse result
pub static EXTRA: &[&[Rec]] = &[STRINGS, NUMBERS, PERCENT, REGEXPS, WORDS, SCOPES];
pub static SECTIONS: &[&[Rec]] = &[LITERAL, VAR, ASGN, MASGN, OPS, CALL, BLOCK, DEF, CONTROL, PATTERN, MISC, HEREDOC, NAMES, BLOCKS, PARAMS, ASGN2, ARGS, OPS2, CONTROL2, PATTERN2];
pub fn total() -> u32 {
    let mut n = 0;
    for s in SECTIONS.iter() { n += s.len() as u32; }
    n
}
pub fn get(mut i: u32) -> &'static Rec {
    for s in SECTIONS.iter().chain(EXTRA.iter()) {
        if (i as usize) < s.len() { return &s[i as usize]; }
        i -= s.len() as u32;
    }
    panic!()
}
/// number of source bytes of a template
pub fn len(t: &[u8]) -> u32 {
    let (mut n, mut i) = (0, 0);
    while i < t.len() { if t[i] >= 0xfe { i += 2 } else { i += 1 } n += 1; }
    n
}
/// (template, position) pairs: all positions of all templates, the end included
pub fn positions() -> u32 {
    let mut n = 0;
    for s in SECTIONS.iter() { for r in s.iter() { n += len(r.t) + 1; } }
    n
}
/// the same with the first `n` further tables
pub fn wide_positions(k: usize) -> u32 {
    let mut n = positions();
    for s in EXTRA[..k].iter() { for r in s.iter() { n += len(r.t) + 1; } }
    n
}
pub fn wide_total() -> u32 {
    let mut n = total();
    for s in EXTRA.iter() { n += s.len() as u32; }
    n
}
pub fn at(mut i: u32) -> (&'static Rec, u32) {
    for s in SECTIONS.iter().chain(EXTRA.iter()) {
        for r in s.iter() {
            let n = len(r.t) + 1;
            if i < n { return (r, i); }
            i -= n;
        }
    }
    panic!()
}
