//! Source templates with symbolic bytes ("holes") and expected results that refer to them.
use crate::rt::*;

/// a template and what is expected of it (0xff i = hole i)
pub struct Rec { pub t: &'static [u8], pub shape: &'static [u8], pub full: &'static [u8], pub diag: &'static [u8], pub toks: &'static [u8] }

pub const CLASSES: &[(u8, Set, [u8; 2])] = &[
    (b'a', Set::range(b'a', b'z'), *b"qz"),
    (b'b', Set::range(b'a', b'z').or(Set::range(b'A', b'Z')).or(Set::range(b'0', b'9')).or(Set::of(b"_")), *b"Q7"),
    (b'd', Set::range(b'0', b'9'), *b"47"),
    (b'D', Set::range(b'1', b'9'), *b"58"),
    (b's', Set::of(b" \t"), *b" \t"),
    (b't', Set::range(0x21, 0x7e).minus(Set::of(b"\"'\\#{}()[]<>`/@$|!%")), *b"^;"),
    (b'n', Set::of(b"\n;"), *b"\n;"),
    (b'u', Set::range(b'A', b'Z'), *b"QZ"),
    (b'w', Set::of(b" \t\x0b\x0c\r"), *b" \t"),
    (b'x', Set::range(b'0', b'9').or(Set::range(b'a', b'f')).or(Set::range(b'A', b'F')), *b"4c"),
    (b'o', Set::range(b'0', b'1'), *b"01"),
    (b'c', Set::range(0x20, 0x7e), *b"q+"),
];
pub fn class(c: u8) -> &'static (u8, Set, [u8; 2]) {
    let mut i = 0;
    while i < CLASSES.len() {
        if CLASSES[i].0 == c { return &CLASSES[i]; }
        i += 1;
    }
    panic!("unknown hole class")
}
/// a template: bytes, 0xff c = hole of class c
pub fn expand(t: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let mut src = Vec::with_capacity(t.len());
    let mut holes = Vec::new();
    let mut i = 0;
    while i < t.len() {
        if t[i] == 0xff {
            let h = hole(&class(t[i + 1]).1);
            holes.push(h);
            src.push(h);
            i += 2;
        } else if t[i] == 0xfe {
            src.push(holes[t[i + 1] as usize]);
            i += 2;
        } else {
            src.push(t[i]);
            i += 1;
        }
    }
    (src, holes)
}
/// actual == expected, where expected refers to hole i as 0xff i
pub fn matches(expected: &[u8], holes: &[u8], actual: &[u8]) -> bool {
    let (mut i, mut j) = (0, 0);
    while i < expected.len() {
        let e = if expected[i] == 0xff { i += 1; holes[expected[i] as usize] } else { expected[i] };
        if j >= actual.len() || actual[j] != e { return false; }
        i += 1;
        j += 1;
    }
    j == actual.len()
}
pub fn subst(expected: &[u8], holes: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < expected.len() {
        if expected[i] == 0xff { i += 1; v.push(holes[expected[i] as usize]); } else { v.push(expected[i]); }
        i += 1;
    }
    v
}
/// native only: what does `f` give for this template, as a function of the holes?
pub fn generalise(t: &[u8], f: &dyn Fn(Vec<u8>) -> Vec<u8>) -> Result<Vec<u8>, String> {
    let mut cls = vec![];
    let mut i = 0;
    while i < t.len() { if t[i] == 0xff { cls.push(t[i + 1]); i += 2; } else if t[i] == 0xfe { i += 2; } else { i += 1; } }
    let base: Vec<u8> = cls.iter().map(|c| class(*c).2[0]).collect();
    let build = |h: &[u8]| { let mut v = vec![]; let (mut i, mut k) = (0, 0); while i < t.len() { if t[i] == 0xff { v.push(h[k]); k += 1; i += 2; } else if t[i] == 0xfe { v.push(h[t[i + 1] as usize]); i += 2; } else { v.push(t[i]); i += 1; } } v };
    let b = f(build(&base));
    let mut owner: Vec<Option<usize>> = vec![None; b.len()];
    for k in 0..cls.len() {
        let mut h = base.clone();
        h[k] = class(cls[k]).2[1];
        let o = f(build(&h));
        if o.len() != b.len() { return Err(format!("hole {} changes the structure:\n  {}\n  {}", k, String::from_utf8_lossy(&b), String::from_utf8_lossy(&o))); }
        for p in 0..b.len() {
            if o[p] != b[p] {
                if b[p] != base[k] || o[p] != h[k] { return Err(format!("hole {} changes the structure:\n  {}\n  {}", k, String::from_utf8_lossy(&b), String::from_utf8_lossy(&o))); }
                owner[p] = Some(k);
            }
        }
    }
    let mut r = vec![];
    for p in 0..b.len() { match owner[p] { Some(k) => { r.push(0xff); r.push(k as u8); } None => r.push(b[p]) } }
    Ok(r)
}

/// the template with every hole at its sample value
pub fn sample(t: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(t.len());
    let mut h: Vec<u8> = Vec::new();
    let mut i = 0;
    while i < t.len() {
        if t[i] == 0xff { let s = class(t[i + 1]).2[0]; h.push(s); v.push(s); i += 2; }
        else if t[i] == 0xfe { v.push(h[t[i + 1] as usize]); i += 2; }
        else { v.push(t[i]); i += 1; }
    }
    v
}
