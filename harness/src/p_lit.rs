//! Percent literals (C18), regexps (C19) and heredocs (C09) against reference models.
use crate::ast::{self, F};
use crate::dump;
use crate::p_generic::{spec, DIAG, SHAPE};
use crate::p_inv::starts;
use crate::p_lex::{cat, content};
use crate::props::*;
use crate::refs::{self, is_space, Lit, Rd};
use crate::rt::*;
use crate::spec_topics::*;
use lib_ruby_parser::*;

fn root(r: &ParserResult) -> &Node { match &r.ast { Some(a) => &**a, None => fail("no tree") } }
fn list<'a>(n: &'a Node, name: &str) -> Option<&'a [Node]> {
    let mut o = None;
    ast::fields(n, &mut |k, f| if k == name { if let F::L(l) = f { o = Some(l) } });
    o
}
fn text(n: &Node, name: &str) -> Vec<u8> {
    let mut o = vec![];
    ast::fields(n, &mut |k, f| if k == name { if let F::S(l) | F::MS(Some(l)) = f { o = l.to_vec() } });
    o
}
fn is_call(n: &Node, name: &[u8]) -> bool { ast::name(n) == "send" && text(n, "method_name") == name }

// ---- C18 -----------------------------------------------------------------------------------
fn closing(o: u8) -> u8 { match o { b'(' => b')', b'[' => b']', b'{' => b'}', b'<' => b'>', c => c } }
fn nesting(o: u8) -> u8 { if closing(o) == o { 0 } else { o } }
/// words of %w/%i (raw) or %W/%I; None: the literal does not extend over exactly this body
fn words(s: &[u8], open: u8, term: u8, raw: bool) -> Option<Result<Vec<Vec<u8>>, ()>> {
    let mut r = Rd::new(s);
    let mut out: Vec<Vec<u8>> = vec![];
    let mut cur: Option<Vec<u8>> = None;
    let mut nest = 0;
    while let Some(c) = r.next() {
        if is_space(c) { if let Some(w) = cur.take() { out.push(w); } continue; }
        let w = cur.get_or_insert_with(Vec::new);
        if open != 0 && c == open { nest += 1; w.push(c); continue; }
        if c == term { if nest == 0 { return None; } nest -= 1; w.push(c); continue; }
        if c == b'#' && !raw { match r.peek() { Some(b'{') | Some(b'$') | Some(b'@') => return None, _ => {} } w.push(c); continue; }
        if c != b'\\' { w.push(c); continue; }
        let d = match r.peek() { None => return None, Some(d) => d };
        if raw {
            if is_space(d) { w.push(r.next().unwrap_or(0)); }
            else if d == b'\\' || d == term || (open != 0 && d == open) { r.i += 1; w.push(d); }
            else { w.push(b'\\'); }
        } else {
            match d {
                b'\n' => { r.i += 1; w.push(b'\n'); }
                b'\r' if r.peek2() == Some(b'\n') => { r.i += 2; w.push(b'\n'); }
                b'u' | b'x' | b'M' | b'C' | b'c' => return None, // see C05
                _ => match refs::escape_byte(&mut r) { Some(b) => w.push(b), None => return None },
            }
        }
    }
    if nest > 0 { return None; }
    if let Some(w) = cur { out.push(w); }
    Some(Ok(out))
}
const PUNCT: Set = Set::of(b"!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~");
const TYPES: &[u8] = b" qQwWiIsx";
/// contexts: alone, as the first element of an array, as the argument of a command call
fn wrap(lit: &[u8], k: usize) -> Vec<u8> { match k { 0 => lit.to_vec(), 1 => cat(&[b"[", lit, b",zz]"]), _ => cat(&[b"p ", lit]) } }
fn unwrap<'a>(r: &'a ParserResult, k: usize) -> &'a Node {
    let a = root(r);
    if k == 0 { return a; }
    let l = match list(a, if k == 1 { "elements" } else { "args" }) { Some(l) => l, None => fail("literal parsed as something else") };
    if k == 1 { check(ast::name(a) == "array" && l.len() == 2 && is_call(&l[1], b"zz"), "literal does not end where it should"); }
    else { check(is_call(a, b"p") && l.len() == 1, "literal does not end where it should"); }
    &l[0]
}
fn judge(src: Vec<u8>, ctx: usize, ty: u8, body: &[u8], open: u8, term: u8) {
    let nest = nesting(open);
    input(&src);
    match ty {
        b'w' | b'W' | b'i' | b'I' => {
            let raw = ty == b'w' || ty == b'i';
            let ws = match words(body, nest, term, raw) { Some(Ok(w)) => w, _ => lrsym_discard() };
            let r = parse(src);
            let sym = ty == b'i' || ty == b'I';
            if sym && ws.iter().any(|w| !refs::valid_utf8(w)) { return check(dump::has_error(&r), "symbol with invalid bytes not reported"); }
            check(!dump::has_error(&r), "well-formed literal reported as an error");
            let a = unwrap(&r, ctx);
            check(ast::name(a) == "array", "word list has another node kind");
            let l = match list(a, "elements") { Some(l) => l, None => fail("word list has another node kind") };
            emit_n(l.len());
            check(l.len() == ws.len(), "word list has another number of elements");
            let mut i = 0;
            while i < ws.len() {
                let k = ast::name(&l[i]);
                check(if sym { k == "sym" || (!raw && k == "dsym") } else { k == "str" || (!raw && k == "dstr") }, "element has another node kind");
                let mut got = vec![];
                check(content(&l[i], &mut got), "element parsed as something else");
                emit(&got);
                if got != ws[i] { note(&got); note(&ws[i]); fail("element has another value"); }
                i += 1;
            }
        }
        _ => {
            let raw = ty == b'q' || ty == b's';
            let want = if raw { refs::raw(body, nest, term) } else { refs::interpolating(body, nest, term) };
            let want = match want { Lit::Ok(v) => v, _ => lrsym_discard() };
            let r = parse(src);
            if ty == b's' && !refs::valid_utf8(&want) { return check(dump::has_error(&r), "symbol with invalid bytes not reported"); }
            check(!dump::has_error(&r), "well-formed literal reported as an error");
            let a = unwrap(&r, ctx);
            let k = ast::name(a);
            check(match ty { b's' => k == "sym" || k == "dsym", b'x' => k == "xstr", _ => k == "str" || k == "dstr" }, "literal has another node kind");
            let mut got = vec![];
            check(content(a, &mut got), "literal parsed as something else");
            emit(&got);
            if got != want { note(&got); note(&want); fail("literal has another value"); }
        }
    }
}
fn head(ty: u8) -> Vec<u8> { if ty == b' ' { vec![b'%'] } else { vec![b'%', ty] } }
/// any delimiter, body of free bytes
fn delimiters(_t: u32, c: u32) {
    let ty = TYPES[c as usize / 3];
    let ctx = c as usize % 3;
    let open = hole(&PUNCT);
    if ctx == 2 && ty == b' ' && open == b'=' { lrsym_discard(); } // `p %= 1`
    let term = closing(open);
    let mut body = vec![];
    match choose(5) {
        0 => {}
        1 => body.push(b'a'),
        2 => { body.push(b'\\'); body.push(open); }
        3 => { body.push(b'a'); body.push(b'\\'); body.push(term); body.push(b'b'); }
        _ => { body.push(open); body.push(b'a'); body.push(term); }
    }
    if choose(2) == 1 { body.push(hole(&Set::any())); }
    // with these delimiters another rule comes first: nothing can be escaped or interpolated
    if open == b'\\' || ((open == b'#' || open == b'{' || open == b'$' || open == b'@') && body.contains(&b'#')) { lrsym_discard(); }
    let lit = cat(&[&head(ty), &[open], &body, &[term]]);
    judge(wrap(&lit, ctx), ctx, ty, &body, nesting(open).max(open), term);
}
const PBODY: &[&[u8]] = &[b"", b"a", b"a ", b"a\\", b"\\", b"(a", b"a) ", b"a\n", b"\\ ", b"#", b"a b "];
/// brackets, longer bodies
fn bodies(t: u32, c: u32) {
    let ty = TYPES[c as usize / PBODY.len()];
    let pre = PBODY[c as usize % PBODY.len()];
    let set = if t == 0 { Set::of(b"a ()\\\n\t\r#n[]\x0b\xc3\xa9 {@|") } else { Set::any() };
    let n = choose(4);
    let mut body = pre.to_vec();
    for i in 0..3 { if i < n { body.push(hole(&set)); } }
    let open = [b'(', b'|'][choose(2)];
    let term = closing(open);
    let lit = cat(&[&head(ty), &[open], &body, &[term]]);
    judge(wrap(&lit, 1), 1, ty, &body, open, term);
}
/// illegal delimiters and types, missing terminators
fn illegal(_t: u32, c: u32) {
    const ALNUM: Set = Set::of(b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ");
    let src = match c {
        0 => { let ty = TYPES[1 + choose(TYPES.len() - 1)]; let d = hole(&ALNUM); cat(&[b"[%", &[ty, d], b"a", &[d], b"]"]) }
        1 => { let ty = hole(&ALNUM); if TYPES.contains(&ty) || ty == b'r' { lrsym_discard(); } cat(&[b"[%", &[ty], b"(a)]"]) }
        2 => cat(&[b"[%", &[TYPES[1 + choose(TYPES.len() - 1)]]]),
        3 => b"[%".to_vec(),
        _ => {
            let ty = TYPES[choose(TYPES.len())];
            let open = hole(&PUNCT);
            let term = closing(open);
            let n = choose(3);
            let mut body = vec![];
            for i in 0..2 { if i < n { body.push(hole(&Set::any())); } }
            if body.contains(&term) || open == b'#' { lrsym_discard(); }
            cat(&[&head(ty), &[open], &body])
        }
    };
    input(&src);
    check(dump::has_error(&parse(src)), "malformed percent literal accepted");
}
pub static C18: &[Group] = &[
    Group { n: |_| TYPES.len() as u32 * 3, run: delimiters },
    Group { n: |_| (TYPES.len() * PBODY.len()) as u32, run: bodies },
    Group { n: |_| 5, run: illegal },
    Group { n: |_| PERCENT.len() as u32, run: |_, c| spec(&PERCENT[c as usize], SHAPE | DIAG) },
    Group { n: |t| crate::p_long::n_some(crate::p_long::L18, t), run: |t, c| crate::p_long::some(crate::p_long::L18, t, c) },
];

// ---- C19 -----------------------------------------------------------------------------------
fn re_meta(c: u8) -> bool { matches!(c, b'$' | b'*' | b'+' | b'.' | b'?' | b'^' | b'|' | b')' | b']' | b'}' | b'>') }
/// source of a regexp body; None: out of scope (ends elsewhere, interpolation, escapes that are rewritten)
fn re_source(s: &[u8], open: u8, term: u8) -> Option<Vec<u8>> {
    let mut r = Rd::new(s);
    let mut out = vec![];
    let mut nest = 0;
    while let Some(c) = r.next() {
        if open != 0 && c == open { nest += 1; out.push(c); continue; }
        if c == term { if nest == 0 { return None; } nest -= 1; out.push(c); continue; }
        if c == b'#' { match r.peek() { Some(b'{') | Some(b'$') | Some(b'@') => return None, _ => {} } out.push(c); continue; }
        if c != b'\\' { out.push(c); continue; }
        match r.peek() {
            None => return None,
            Some(b'\n') => { r.i += 1; }
            Some(b'\r') if r.peek2() == Some(b'\n') => { r.i += 2; }
            Some(b'u') | Some(b'c') | Some(b'C') | Some(b'M') | Some(b'x') => return None,
            Some(d) if d >= 0x80 => return None,
            Some(d) if d == term && !re_meta(d) => { r.i += 1; out.push(d); }
            Some(d) => { r.i += 1; out.push(b'\\'); out.push(d); }
        }
    }
    if nest > 0 { None } else { Some(out) }
}
fn re_check(src: Vec<u8>, ctx: usize, want: &[u8], opts: &[u8]) {
    input(&src);
    let bad = opts.iter().any(|c| !b"imxonesu".contains(c));
    let r = parse(src);
    if bad { return check(dump::has_error(&r), "unknown regexp option accepted"); }
    check(!dump::has_error(&r), "well-formed regexp reported as an error");
    let a = unwrap(&r, ctx);
    check(ast::name(a) == "regexp", "regexp parsed as something else");
    let mut got = vec![];
    let mut go = vec![];
    ast::fields(a, &mut |k, f| match (k, f) {
        ("parts", F::L(l)) => for x in l.iter() { check(content(x, &mut got), "regexp part is something else"); },
        ("options", F::M(Some(n))) => go = text(n, "options"),
        _ => {}
    });
    emit(&got);
    emit(&go);
    if got != want { note(&got); note(want); fail("regexp has another source"); }
    let mut wo = vec![];
    for c in 0..=255u8 { if opts.contains(&c) { wo.push(c); } }
    if go != wo { note(&go); fail("regexp has other options"); }
}
const LETTERS: Set = Set::of(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ");
fn re_options(t: u32, c: u32) {
    let c = c as usize;
    let mut o = [b"".as_slice(), b"imx", b"uone", b"imxouns"][c / 6].to_vec();
    let n = if o.is_empty() { 3 + t as usize } else { 2 };
    let k = choose(n + 1);
    for i in 0..n { if i < k { o.push(hole(&LETTERS)); } }
    let (a, b): (&[u8], &[u8]) = [(b"/a/".as_slice(), b"a".as_slice()), (b"%r{a}", b"a"), (b"//", b"")][c / 2 % 3];
    let ctx = c % 2;
    re_check(wrap(&cat(&[a, &o]), ctx), ctx, b, &o);
}
const RBODY: &[&[u8]] = &[b"", b"\\", b"a", b"(", b"[", b"a\\", b"[\\", b"(?<a>", b"\\\\", b"#", b"^a"];
fn re_body(t: u32, c: u32) {
    let pre = RBODY[c as usize / 3];
    let (o, open, term): (&[u8], u8, u8) = [(b"/".as_slice(), 0, b'/'), (b"%r{", b'{', b'}'), (b"%r!", 0, b'!')][c as usize % 3];
    let n = choose(if t == 0 { 3 } else { 4 });
    let mut body = pre.to_vec();
    for i in 0..3 { if i < n { body.push(hole(&Set::any())); } }
    if body.is_empty() { lrsym_discard(); }
    let want = match re_source(&body, open, term) { Some(w) => w, None => lrsym_discard() };
    // an `=` right after the slash is tested separately
    re_check(wrap(&cat(&[o, &body, &[term], b"i"]), 1), 1, &want, b"i");
}
fn re_delim(_t: u32, _c: u32) {
    let open = hole(&PUNCT);
    let term = closing(open);
    if open == b'\\' || open == b'#' { lrsym_discard(); }
    let body = match choose(4) { 0 => vec![], 1 => vec![b'a'], 2 => vec![b'\\', term, b'a'], _ => vec![open, b'x', term] };
    let want = match re_source(&body, nesting(open), term) { Some(w) => w, None => lrsym_discard() };
    re_check(wrap(&cat(&[b"%r", &[open], &body, &[term], b"mx"]), 1), 1, &want, b"mx");
}
/// escapes that are validated or rewritten
fn re_escapes(t: u32, c: u32) {
    let pre: &[u8] = [b"\\x".as_slice(), b"\\u", b"\\u{", b"\\c", b"\\C-", b"\\M-", b"\\M-\\C-", b"\\1", b"\\0", b"\\k<", b"\\p{"][c as usize];
    let n = if t == 0 { 2 } else { 3 };
    let k = choose(n + 1);
    let mut body = pre.to_vec();
    for i in 0..n { if i < k { body.push(hole(&Set::any())); } }
    match choose(3) { 0 => {} 1 => body.extend_from_slice(b"}"), _ => body.extend_from_slice(b"41") }
    let src = cat(&[b"/", &body, b"/"]);
    input(&src);
    let e = |b: u8| -> Vec<u8> { const H: &[u8] = b"0123456789ABCDEF"; vec![b'\\', b'x', H[b as usize >> 4], H[b as usize & 15]] };
    let want = match refs::interpolating(&body, 0, b'/') { Lit::Ok(v) => v, Lit::Err => { let mut e = false; let r = parse(src); if dump::has_error(&r) { e = true; } if pre == b"\\x" || pre == b"\\u" || pre == b"\\u{" { check(e, "malformed escape in a regexp accepted"); } return; } Lit::Out => lrsym_discard() };
    let want = match c {
        0 | 1 | 2 | 7 | 8 | 9 | 10 => match re_plain(&body) { Some(w) => w, None => lrsym_discard() },
        _ => { if want.len() != 1 { lrsym_discard(); } e(want[0]) }
    };
    re_check(src, 0, &want, b"");
}
/// body with only \x \u or plain escapes: kept as written
fn re_plain(s: &[u8]) -> Option<Vec<u8>> {
    let mut i = 2;
    if starts(s, 2, b"{") && (s.len() < 4 || !refs::is_hex(s[3])) { return None; } // left to the regexp compiler
    while i < s.len() { if s[i] == b'\\' || is_space(s[i]) { return None; } i += 1; }
    Some(s.to_vec())
}
pub static C19: &[Group] = &[
    Group { n: |_| 24, run: re_options },
    Group { n: |_| 3 * RBODY.len() as u32, run: re_body },
    Group { n: |_| 1, run: re_delim },
    Group { n: |_| 11, run: re_escapes },
    Group { n: |_| REGEXPS.len() as u32, run: |_, c| spec(&REGEXPS[c as usize], SHAPE | DIAG) },
    Group { n: |t| crate::p_long::n_some(crate::p_long::L19, t), run: |t, c| crate::p_long::some(crate::p_long::L19, t, c) },
];

// ---- C09 -----------------------------------------------------------------------------------
struct Doc { kind: usize, quote: usize, id: Vec<u8> }
const KINDS: &[&[u8]] = &[b"<<", b"<<-", b"<<~"];
const QUOTES: &[u8] = b" \"'`";
fn intro(d: &Doc) -> Vec<u8> { let q: &[u8] = match d.quote { 0 => b"", 1 => b"\"", 2 => b"'", _ => b"`" }; cat(&[KINDS[d.kind], q, &d.id, q]) }
/// lines of a text: (start, end without line break, start of the next)
fn line(s: &[u8], i: usize) -> (usize, usize) {
    let mut j = i;
    while j < s.len() && s[j] != b'\n' { j += 1; }
    if j >= s.len() { (j, j) } else if j > i && s[j - 1] == b'\r' { (j - 1, j + 1) } else { (j, j + 1) }
}
fn is_end(s: &[u8], mut i: usize, e: usize, d: &Doc) -> bool {
    if d.kind > 0 { while i < e && is_space(s[i]) { i += 1; } }
    e - i == d.id.len() && starts(s, i, &d.id)
}
/// reads the body at the start of `s`: (value, rest); Err(true): unterminated, Err(false): out of scope
fn heredoc(s: &[u8], d: &Doc) -> Result<(Vec<u8>, usize), bool> {
    let raw = d.quote == 2;
    let mut i = 0;
    let mut ls: Vec<(usize, usize)> = vec![];
    let mut joined = false;
    loop {
        if i >= s.len() { return Err(true); }
        let (e, n) = line(s, i);
        if !joined && is_end(s, i, e, d) { i = n; break; }
        if e == s.len() && n == e { return Err(true); }
        ls.push((i, e));
        // an escaped line break joins the next line to this one
        let mut k = e;
        let mut bs = 0;
        while k > i && s[k - 1] == b'\\' { k -= 1; bs += 1; }
        joined = !raw && bs % 2 == 1;
        if joined && d.kind == 2 { return Err(false); }
        i = n;
    }
    let mut width = 0;
    if d.kind == 2 {
        let mut min: Option<usize> = None;
        for &(b, e) in ls.iter() {
            let (mut k, mut w) = (b, 0);
            while k < e && (s[k] == b' ' || s[k] == b'\t') { w = if s[k] == b'\t' { (w / 8 + 1) * 8 } else { w + 1 }; k += 1; }
            if k < e { min = Some(match min { Some(m) if m <= w => m, _ => w }); }
        }
        width = min.unwrap_or(1 << 20);
    }
    let mut t = vec![];
    for &(b, e) in ls.iter() {
        let (mut k, mut w) = (b, 0);
        while k < e && w < width {
            if s[k] == b' ' { w += 1; } else if s[k] == b'\t' { let x = (w / 8 + 1) * 8; if x > width { break; } w = x; } else { break; }
            k += 1;
        }
        t.extend_from_slice(&s[k..e]);
        t.push(b'\n');
    }
    if raw { return Ok((t, i)); }
    match refs::heredoc_text(&t) { Some(v) => Ok((v, i)), None => Err(false) }
}
fn find<'a>(n: &'a Node, out: &mut Vec<&'a Node>) {
    let k = ast::name(n);
    if k == "heredoc" || k == "x_heredoc" { out.push(n); return; }
    ast::fields(n, &mut |_, f| match f { F::N(x) | F::M(Some(x)) => find(x, out), F::L(l) => for x in l.iter() { find(x, out); }, _ => {} });
}
fn value(n: &Node, d: &Doc, want: &[u8]) {
    check((ast::name(n) == "x_heredoc") == (d.quote == 3), "heredoc has another node kind");
    let mut got = vec![];
    check(content(n, &mut got), "heredoc parsed as something else");
    emit(&got);
    if got != want { note(&got); note(want); fail("heredoc has another value"); }
}
/// one heredoc, free body, statements after it
fn single(d: Doc, body: Vec<u8>, ctx: usize) {
    let (pre, post): (&[u8], &[u8]) = [(b"".as_slice(), b"".as_slice()), (b"p(", b", zz)"), (b"", b".zz"), (b"[", b", 'zz']"), (b"zz = ", b"")][ctx];
    let text = cat(&[&body, &d.id, b"\nqq\n"]);
    let src = cat(&[pre, &intro(&d), post, b"\n", &text]);
    input(&src);
    let want = heredoc(&text, &d);
    if let Err(false) = want { lrsym_discard(); }
    let r = parse(src);
    match want {
        Err(_) => check(dump::has_error(&r), "unterminated heredoc accepted"),
        Ok((v, rest)) => {
            let tail = &text[rest..];
            if tail != b"qq\n" { if dump::has_error(&r) { lrsym_discard(); } }
            else { check(!dump::has_error(&r), "well-formed heredoc reported as an error"); }
            let mut hs = vec![];
            let a = root(&r);
            find(a, &mut hs);
            check(hs.len() >= 1, "heredoc missing from the tree");
            value(hs[0], &d, &v);
            if tail == b"qq\n" {
                let st = match list(a, "statements") { Some(l) => l, None => fail("the code after a heredoc is gone") };
                check(st.len() == 2 && is_call(&st[1], b"qq"), "the code after a heredoc is gone or different");
                check(match ctx {
                    0 => true,
                    1 => is_call(&st[0], b"p") && list(&st[0], "args").map(|l| l.len() == 2 && is_call(&l[1], b"zz")).unwrap_or(false),
                    2 => is_call(&st[0], b"zz"),
                    3 => list(&st[0], "elements").map(|l| l.len() == 2 && text_of(&l[1]) == b"zz").unwrap_or(false),
                    _ => ast::name(&st[0]) == "lvasgn",
                }, "the rest of the introducing line is different");
            }
        }
    }
}
fn text_of(n: &Node) -> Vec<u8> { let mut o = vec![]; content(n, &mut o); o }
const HSET: Set = Set::of(b" \t\n\\aEn#");
const HPRE: &[&[u8]] = &[b"", b"  a\n", b"\ta\n", b"E\\\n", b"   \n"];
fn doc_body(t: u32, c: u32) {
    let c = c as usize;
    let d = Doc { kind: c / 4 % 3, quote: c % 4, id: b"E".to_vec() };
    let pre = HPRE[c / 12];
    let n = choose(if t == 0 { if pre.is_empty() { 6 } else { 5 } } else { 7 });
    let mut body = pre.to_vec();
    for i in 0..6 { if i < n { body.push(hole(&HSET)); } }
    body.push(b'\n');
    if n == 0 && pre.is_empty() { body.clear(); }
    single(d, body, 0);
}
/// any bytes, other contexts, CRLF
fn doc_bytes(t: u32, c: u32) {
    let c = c as usize;
    let d = Doc { kind: c / 4 % 3, quote: c % 4, id: b"EOS".to_vec() };
    let ctx = c / 12;
    let n = choose(if t == 0 { 3 } else { 4 });
    let mut body = b" ".to_vec();
    for i in 0..3 { if i < n { body.push(hole(&Set::any())); } }
    body.push(b'\n');
    single(d, body, ctx);
}
/// indentation of the terminator and lines that resemble it
fn doc_term(_t: u32, c: u32) {
    let c = c as usize;
    let d = Doc { kind: c / 4 % 3, quote: c % 4, id: b"ab".to_vec() };
    let mut body = vec![b'x', b'\n'];
    let k = choose(3);
    for i in 0..2 { if i < k { body.push(hole(&Set::of(b" \t\ra\x0b\n"))); } }
    body.extend_from_slice(b"ab");
    let k = choose(3);
    for i in 0..2 { if i < k { body.push(hole(&Set::of(b" \rab_;.\0\x04"))); } }
    body.push(b'\n');
    single(d, body, 0);
}
/// the terminator at the end of the input
fn doc_eof(_t: u32, c: u32) {
    let c = c as usize;
    let d = Doc { kind: c / 4 % 3, quote: c % 4, id: b"ab".to_vec() };
    let mut text = [b"".as_slice(), b"x\n", b"\n", b"  x\r\n"][choose(4)].to_vec();
    text.extend_from_slice([b"".as_slice(), b" ", b"\t", b"a"][choose(4)]);
    text.extend_from_slice([b"ab".as_slice(), b"a", b"abb"][choose(3)]);
    let k = choose(4);
    for i in 0..3 { if i < k { text.push(hole(&Set::of(b"\r\n ;b\t"))); } }
    let src = cat(&[&intro(&d), b"\n", &text]);
    input(&src);
    match heredoc(&text, &d) {
        Err(false) => lrsym_discard(),
        Err(true) => check(dump::has_error(&parse(src)), "unterminated heredoc accepted"),
        Ok((v, rest)) => {
            let mut i = rest;
            while i < text.len() { if !is_space(text[i]) { lrsym_discard(); } i += 1; }
            let r = parse(src);
            check(!dump::has_error(&r), "well-formed heredoc reported as an error");
            let mut hs = vec![];
            find(root(&r), &mut hs);
            check(hs.len() == 1, "heredoc missing from the tree");
            value(hs[0], &d, &v);
        }
    }
}
/// wide indentation with blanks and tabs
fn doc_tabs(_t: u32, c: u32) {
    let d = Doc { kind: 2, quote: [0, 2][c as usize % 2], id: b"E".to_vec() };
    let ind = |n: usize| -> Vec<u8> {
        let mut o = vec![];
        let k = choose(n);
        for i in 0..n { if i < k { o.push(b' '); } }
        if choose(2) == 1 { o.push(b'\t'); let m = choose(3); for i in 0..2 { if i < m { o.push(hole(&Set::of(b" \t"))); } } }
        o
    };
    let a = ind(10);
    let b = match c / 2 { 0 => ind(12), 1 => cat(&[b"        ", &ind(4)]), _ => cat(&[b"               ", &ind(3)]) };
    single(d, cat(&[&a, b"a\n", &b, b"b\n"]), 0);
}
const IDENT: Set = Set::of(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_");
/// any identifier; quoted ones may hold anything but their quote
fn doc_id(_t: u32, c: u32) {
    let c = c as usize;
    let quote = c % 4;
    let mut id = vec![];
    let n = 1 + choose(3);
    for i in 0..3 { if i < n { id.push(if quote == 0 { if i == 0 { hole(&IDENT) } else { hole(&Set::of(b"aZ_09")) } } else { hole(&Set::of(b"aZ_0 -.+(#")) }); } }
    let d = Doc { kind: c / 4 % 3, quote, id };
    let body = match choose(3) { 0 => vec![], 1 => b"  x y\n".to_vec(), _ => { let mut b = d.id.clone(); b.extend_from_slice(b"x\n  "); b.extend_from_slice(b"y\n"); b } };
    single(d, body, 1);
}
/// two heredocs on a line
fn doc_two(_t: u32, c: u32) {
    let c = c as usize;
    let a = Doc { kind: c / 4 % 3, quote: c % 4, id: b"A".to_vec() };
    let b = Doc { kind: choose(3), quote: choose(4), id: b"B".to_vec() };
    let set = Set::of(b" \tx\nB");
    let mut t = vec![];
    for _ in 0..2 { t.push(hole(&set)); }
    t.extend_from_slice(b"\nA\n");
    for _ in 0..2 { t.push(hole(&set)); }
    t.extend_from_slice(b"\nB\nqq\n");
    let src = cat(&[b"p(", &intro(&a), b", ", &intro(&b), b")\n", &t]);
    input(&src);
    let (v, i) = match heredoc(&t, &a) { Ok(x) => x, Err(_) => lrsym_discard() };
    let (w, j) = match heredoc(&t[i..], &b) { Ok(x) => x, Err(_) => lrsym_discard() };
    if &t[i + j..] != b"qq\n" { lrsym_discard(); }
    let r = parse(src);
    check(!dump::has_error(&r), "well-formed heredocs reported as an error");
    let mut hs = vec![];
    find(root(&r), &mut hs);
    check(hs.len() == 2, "heredoc missing from the tree");
    value(hs[0], &a, &v);
    value(hs[1], &b, &w);
    let st = match list(root(&r), "statements") { Some(l) => l, None => fail("the code after a heredoc is gone") };
    check(st.len() == 2 && is_call(&st[1], b"qq"), "the code after a heredoc is gone or different");
}
/// squiggly heredocs with interpolation: indentation before and after it
fn doc_interp(_t: u32, c: u32) {
    let ws = |b: &[u8]| -> Vec<u8> { let _ = b; let k = choose(3); let mut o = vec![]; for i in 0..2 { if i < k { o.push(hole(&Set::of(b" \t"))); } } o };
    let (p, q) = (ws(b""), ws(b""));
    let x: &[u8] = [b"#{v}".as_slice(), b"#@v", b"#{v} #{v}"][c as usize % 3];
    let (la, lb) = match c / 3 { 0 => (cat(&[&p, x, b" z"]), cat(&[&q, b"y"])), 1 => (cat(&[&p, b"y"]), cat(&[&q, x])), _ => (cat(&[&p, b"y", x]), cat(&[&q, x, b"  "])) };
    let src = cat(&[b"<<~E\n", &la, b"\n", &lb, b"\nE\n"]);
    input(&src);
    // the interpolation behaves like any other non-blank text: put a letter in its place
    let plain = |l: &[u8]| -> Vec<u8> { let mut o = vec![]; let mut i = 0; while i < l.len() { if starts(l, i, b"#{v}") { o.push(1); i += 4; } else if starts(l, i, b"#@v") { o.push(1); i += 3; } else { o.push(l[i]); i += 1; } } o };
    let t = cat(&[&plain(&la), b"\n", &plain(&lb), b"\nE\n"]);
    let want = match heredoc(&t, &Doc { kind: 2, quote: 0, id: b"E".to_vec() }) { Ok((v, _)) => v, Err(_) => lrsym_discard() };
    let r = parse(src);
    check(!dump::has_error(&r), "well-formed heredoc reported as an error");
    let mut got = vec![];
    let a = root(&r);
    check(ast::name(a) == "heredoc", "heredoc has another node kind");
    for n in list(a, "parts").unwrap_or(&[]).iter() { if !content(n, &mut got) { got.push(1); } }
    emit(&got);
    if got != want { note(&got); note(&want); fail("heredoc with interpolation has another value"); }
}
pub static C09: &[Group] = &[
    Group { n: |_| 12 * HPRE.len() as u32, run: doc_body },
    Group { n: |_| 12 * 5, run: doc_bytes },
    Group { n: |_| 12, run: doc_term },
    Group { n: |_| 12, run: doc_eof },
    Group { n: |_| 6, run: doc_tabs },
    Group { n: |_| 12, run: doc_id },
    Group { n: |_| 12, run: doc_two },
    Group { n: |_| 9, run: doc_interp },
    Group { n: |_| crate::spec_constructs::HEREDOC.len() as u32, run: |_, c| spec(&crate::spec_constructs::HEREDOC[c as usize], SHAPE | DIAG) },
    Group { n: |t| crate::p_long::n_some(crate::p_long::L09, t), run: |t, c| crate::p_long::some(crate::p_long::L09, t, c) },
];
