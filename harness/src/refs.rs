//! Reference models, written from the language definition (not from the parser's code).

pub fn is_hex(b: u8) -> bool { (b >= b'0' && b <= b'9') || (b >= b'a' && b <= b'f') || (b >= b'A' && b <= b'F') }
pub fn hexval(b: u8) -> u32 {
    if b <= b'9' { (b - b'0') as u32 } else if b <= b'F' { (b - b'A') as u32 + 10 } else { (b - b'a') as u32 + 10 }
}
pub fn is_digit(b: u8) -> bool { b >= b'0' && b <= b'9' }
pub fn is_space(b: u8) -> bool { b == b' ' || (b >= 9 && b <= 13) }
pub fn is_alpha(b: u8) -> bool { (b >= b'a' && b <= b'z') || (b >= b'A' && b <= b'Z') }
pub fn is_ident(b: u8) -> bool { is_alpha(b) || is_digit(b) || b == b'_' || b >= 0x80 }

/// source reader with Ruby's treatment of CRLF
pub struct Rd<'a> { pub s: &'a [u8], pub i: usize }
impl<'a> Rd<'a> {
    pub fn new(s: &'a [u8]) -> Rd<'a> { Rd { s, i: 0 } }
    pub fn next(&mut self) -> Option<u8> {
        if self.i >= self.s.len() { return None; }
        let c = self.s[self.i];
        self.i += 1;
        if c == b'\r' && self.i < self.s.len() && self.s[self.i] == b'\n' { self.i += 1; return Some(b'\n'); }
        Some(c)
    }
    pub fn peek(&self) -> Option<u8> { if self.i < self.s.len() { Some(self.s[self.i]) } else { None } }
    pub fn peek2(&self) -> Option<u8> { if self.i + 1 < self.s.len() { Some(self.s[self.i + 1]) } else { None } }
}
pub enum Lit {
    /// the decoded bytes
    Ok(Vec<u8>),
    /// malformed escape
    Err,
    /// the literal does not extend over exactly this body (terminator, interpolation, cut-off escape)
    Out,
}
pub fn utf8(out: &mut Vec<u8>, c: u32) {
    if c < 0x80 { out.push(c as u8) }
    else if c < 0x800 { out.push(0xc0 | (c >> 6) as u8); out.push(0x80 | (c & 63) as u8); }
    else if c < 0x10000 { out.push(0xe0 | (c >> 12) as u8); out.push(0x80 | (c >> 6 & 63) as u8); out.push(0x80 | (c & 63) as u8); }
    else { out.push(0xf0 | (c >> 18) as u8); out.push(0x80 | (c >> 12 & 63) as u8); out.push(0x80 | (c >> 6 & 63) as u8); out.push(0x80 | (c & 63) as u8); }
}
const META: u8 = 1;
const CTRL: u8 = 2;
enum E { Bad, Eof, Out }
fn space_ctl(c: u8) -> bool { c == b' ' || (c >= 9 && c <= 13) }
fn cntrl(c: u8) -> bool { c < 32 || c == 127 }
/// one-byte escape after a backslash
fn escape(r: &mut Rd, flags: u8) -> Result<u8, E> {
    let c = match r.next() { Some(c) => c, None => return Err(E::Eof) };
    match c {
        b'n' => Ok(10), b't' => Ok(9), b'r' => Ok(13), b'f' => Ok(12), b'v' => Ok(11), b'a' => Ok(7), b'e' => Ok(27), b'b' => Ok(8), b's' => Ok(32),
        b'0'..=b'7' => {
            let mut v = (c - b'0') as u32;
            let mut n = 1;
            while n < 3 {
                match r.peek() { Some(d) if d >= b'0' && d <= b'7' => { v = v * 8 + (d - b'0') as u32; r.i += 1; } _ => break }
                n += 1;
            }
            Ok(v as u8)
        }
        b'x' => {
            let mut v = 0;
            let mut n = 0;
            while n < 2 {
                match r.peek() { Some(d) if is_hex(d) => { v = v * 16 + hexval(d); r.i += 1; } _ => break }
                n += 1;
            }
            if n == 0 { Err(E::Bad) } else { Ok(v as u8) }
        }
        b'M' => {
            if flags & META != 0 { return Err(E::Bad); }
            match r.next() { Some(b'-') => {} Some(_) => return Err(E::Bad), None => return Err(E::Eof) }
            match r.next() {
                None => Err(E::Eof),
                Some(b'\\') => match r.peek() { Some(b'u') | Some(b'U') => Err(E::Bad), _ => Ok(escape(r, flags | META)? | 0x80) },
                Some(c) => if c >= 0x80 || (cntrl(c) && !space_ctl(c)) { Err(E::Bad) } else { Ok(c | 0x80) },
            }
        }
        b'C' | b'c' => {
            if c == b'C' { match r.next() { Some(b'-') => {} Some(_) => return Err(E::Bad), None => return Err(E::Eof) } }
            if flags & CTRL != 0 { return Err(E::Bad); }
            match r.next() {
                None => Err(E::Eof),
                Some(b'\\') => match r.peek() { Some(b'u') | Some(b'U') => Err(E::Bad), _ => Ok(escape(r, flags | CTRL)? & 0x9f) },
                Some(b'?') => Ok(0x7f),
                Some(c) => if c >= 0x80 || (cntrl(c) && !space_ctl(c)) { Err(E::Bad) } else { Ok(c & 0x9f) },
            }
        }
        c => Ok(c),
    }
}
/// one-byte escape after a backslash; None: malformed
pub fn escape_byte(r: &mut Rd) -> Option<u8> { match escape(r, 0) { Ok(b) => Some(b), Err(_) => None } }
fn codepoint_ok(v: u32) -> bool { v <= 0x10ffff && !(v >= 0xd800 && v <= 0xdfff) }
/// \u after the u
fn unicode(r: &mut Rd, out: &mut Vec<u8>, single: bool) -> Result<(), E> {
    if r.peek() == Some(b'{') {
        r.i += 1;
        let mut count = 0;
        loop {
            while let Some(c) = r.peek() { if c == b'\n' { return Err(E::Out); } if is_space(c) { r.i += 1 } else { break } }
            match r.peek() {
                None => return Err(E::Bad),
                Some(b'}') => { r.i += 1; break; }
                _ => {}
            }
            let (mut v, mut n) = (0u32, 0);
            while let Some(c) = r.peek() { if is_hex(c) { if n < 7 { v = v * 16 + hexval(c); } n += 1; r.i += 1; } else { break } }
            if n == 0 || n > 6 || !codepoint_ok(v) { return Err(E::Bad); }
            match r.peek() { Some(c) if is_space(c) || c == b'}' => {} _ => return Err(E::Bad) }
            utf8(out, v);
            count += 1;
        }
        if single && count > 1 { return Err(E::Bad); }
        return Ok(());
    }
    let mut v = 0u32;
    for _ in 0..4 {
        match r.peek() { Some(c) if is_hex(c) => { v = v * 16 + hexval(c); r.i += 1; } _ => return Err(E::Bad) }
    }
    if !codepoint_ok(v) { return Err(E::Bad); }
    utf8(out, v);
    Ok(())
}
/// body of an interpolating literal with terminator `term` and (for brackets) opener `open`
pub fn interpolating(s: &[u8], open: u8, term: u8) -> Lit {
    let mut r = Rd::new(s);
    let mut out = vec![];
    let mut nest = 0;
    let mut bad = false;
    while let Some(c) = r.next() {
        if open != 0 && c == open { nest += 1; out.push(c); continue; }
        if c == term { if nest == 0 { return Lit::Out; } nest -= 1; out.push(c); continue; }
        if c == b'#' { match r.peek() { Some(b'{') | Some(b'$') | Some(b'@') => return Lit::Out, _ => {} } out.push(c); continue; }
        if c != b'\\' { out.push(c); continue; }
        match r.peek() {
            None => return Lit::Out,
            Some(b'\n') => { r.i += 1; continue; }
            Some(b'\r') if r.peek2() == Some(b'\n') => { r.i += 2; continue; }
            Some(b'u') => { r.i += 1; match unicode(&mut r, &mut out, false) { Ok(()) => {} Err(E::Out) => return Lit::Out, Err(_) => { bad = true; break; } } }
            _ => match escape(&mut r, 0) { Ok(b) => out.push(b), Err(E::Bad) => { bad = true; break; } Err(_) => return Lit::Out },
        }
    }
    if nest > 0 { return Lit::Out; }
    if bad { Lit::Err } else { Lit::Ok(out) }
}
/// text of an interpolating heredoc (line breaks already normalised); None: interpolation or a malformed or unusual escape
pub fn heredoc_text(s: &[u8]) -> Option<Vec<u8>> {
    let mut r = Rd::new(s);
    let mut out = vec![];
    while r.i < s.len() {
        let c = s[r.i];
        r.i += 1;
        if c == b'#' { match r.peek() { Some(b'{') | Some(b'$') | Some(b'@') => return None, _ => {} } out.push(c); continue; }
        if c != b'\\' { out.push(c); continue; }
        match r.peek() {
            None => return None,
            Some(b'\n') => r.i += 1,
            Some(b'u') | Some(b'x') | Some(b'M') | Some(b'C') | Some(b'c') => return None,
            _ => out.push(escape_byte(&mut r)?),
        }
    }
    Some(out)
}
/// body of a raw ('...' or %q) literal
pub fn raw(s: &[u8], open: u8, term: u8) -> Lit {
    let mut r = Rd::new(s);
    let mut out = vec![];
    let mut nest = 0;
    while let Some(c) = r.next() {
        if open != 0 && c == open { nest += 1; out.push(c); continue; }
        if c == term { if nest == 0 { return Lit::Out; } nest -= 1; out.push(c); continue; }
        if c != b'\\' { out.push(c); continue; }
        match r.peek() {
            None => return Lit::Out,
            Some(d) if d == b'\\' || d == term || (open != 0 && d == open) => { r.i += 1; out.push(d); }
            _ => out.push(b'\\'),
        }
    }
    if nest > 0 { return Lit::Out; }
    Lit::Ok(out)
}
/// what follows `?` in a character literal
pub fn character(s: &[u8]) -> Lit {
    let mut r = Rd::new(s);
    let mut out = vec![];
    match r.next() {
        None => return Lit::Out,
        Some(b'\\') => match r.peek() {
            None => return Lit::Out,
            Some(b'u') => { r.i += 1; match unicode(&mut r, &mut out, true) { Ok(()) => {} Err(E::Out) => return Lit::Out, Err(_) => return Lit::Err } }
            Some(c) if c >= 0x80 => return Lit::Out,
            _ => match escape(&mut r, 0) { Ok(b) => out.push(b), Err(E::Bad) => return Lit::Err, Err(_) => return Lit::Out },
        },
        Some(c) => { if is_space(c) || c >= 0x80 { return Lit::Out; } out.push(c); }
    }
    if r.i != s.len() { return Lit::Out; }
    Lit::Ok(out)
}
pub fn valid_utf8(s: &[u8]) -> bool {
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        if c < 0x80 { i += 1; continue; }
        let n = if c >= 0xc2 && c < 0xe0 { 1 } else if c >= 0xe0 && c < 0xf0 { 2 } else if c >= 0xf0 && c < 0xf5 { 3 } else { return false };
        if i + n >= s.len() + 0 && i + n > s.len() - 1 { return false; }
        let d = s[i + 1];
        if d < 0x80 || d >= 0xc0 || (c == 0xe0 && d < 0xa0) || (c == 0xed && d >= 0xa0) || (c == 0xf0 && d < 0x90) || (c == 0xf4 && d >= 0x90) { return false; }
        let mut k = 2;
        while k <= n { let d = s[i + k]; if d < 0x80 || d >= 0xc0 { return false; } k += 1; }
        i += n + 1;
    }
    true
}

// ---- numbers --------------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq)]
pub enum Num { Int, Float, Rational, Complex }
/// digits with single underscores between them: number of bytes, 0 if none; Err(()) if an
/// underscore is misplaced
fn digits(s: &[u8], mut i: usize, ok: fn(u8) -> bool) -> Result<usize, ()> {
    let start = i;
    let mut last_us = true;
    while i < s.len() {
        let c = s[i];
        if ok(c) { last_us = false; i += 1; }
        else if c == b'_' && i > start { if last_us { return Err(()); } last_us = true; i += 1; }
        else { break; }
    }
    if i == start { return Ok(0); }
    if last_us { return Err(()); }
    Ok(i - start)
}
/// an unsigned numeric literal at the start of `s`: (kind, length); Err: malformed
pub fn number(s: &[u8]) -> Result<(Num, usize), ()> {
    if s.is_empty() || !is_digit(s[0]) { return Err(()); }
    let mut i = 0;
    let mut float = false;
    let mut exp = false;
    let radix: Option<fn(u8) -> bool> = if s[0] == b'0' && s.len() > 1 {
        match s[1] {
            b'x' | b'X' => Some(is_hex),
            b'b' | b'B' => Some(|c| c == b'0' || c == b'1'),
            b'd' | b'D' => Some(is_digit),
            b'o' | b'O' => Some(|c| c >= b'0' && c <= b'7'),
            _ => None,
        }
    } else { None };
    if let Some(f) = radix {
        let n = digits(s, 2, f)?;
        if n == 0 { return Err(()); }
        i = 2 + n;
    } else if s[0] == b'0' && s.len() > 1 && (is_digit(s[1]) || s[1] == b'_') {
        let n = digits(s, 0, |c| c >= b'0' && c <= b'7')?;
        i = n;
        if i < s.len() && is_digit(s[i]) { return Err(()); }
    } else {
        i += digits(s, i, is_digit)?;
        if i + 1 < s.len() && s[i] == b'.' && is_digit(s[i + 1]) {
            float = true;
            i += 1;
            i += digits(s, i, is_digit)?;
        }
        if i < s.len() && (s[i] == b'e' || s[i] == b'E') {
            let mut j = i + 1;
            if j < s.len() && (s[j] == b'+' || s[j] == b'-') { j += 1; }
            if j < s.len() && is_digit(s[j]) {
                float = true;
                exp = true;
                i = j + digits(s, j, is_digit)?;
            }
        }
    }
    let (mut r, mut im) = (false, false);
    let mut j = i;
    if j < s.len() && s[j] == b'r' && !exp { r = true; j += 1; }
    if j < s.len() && s[j] == b'i' { im = true; j += 1; }
    if j < s.len() && is_ident(s[j]) { r = false; im = false; j = i; }
    let k = if im { Num::Complex } else if r { Num::Rational } else if float { Num::Float } else { Num::Int };
    Ok((k, j))
}
