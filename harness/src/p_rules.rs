//! C13: static rules.
use crate::dump;
use crate::p_generic::{spec, DIAG, SHAPE};
use crate::props::*;
use crate::rt::*;
use crate::spec_topics::*;
use lib_ruby_parser::*;

const LOW: Set = Set::of(b"abcdefghijklmnopqrstuvwxyz");
/// two names; equal or not
struct Names { n: [Vec<u8>; 2], under: bool }
fn names() -> Names {
    let k = choose(5);
    // a hash of the names makes the engine split every one of them: few letters
    let s = Set::of(b"adez");
    let (a, b) = (hole(&s), hole(&s));
    let mk = |c: u8| -> Vec<u8> { match k { 0 => vec![c], 1 => vec![b'_', c], 2 => vec![b'x', c, b'9'], 3 => vec![0xc3, 0xa9, c], _ => vec![b'x', b'_', b'A', c] } };
    Names { n: [mk(a), mk(b)], under: k == 1 }
}
fn dup(r: &ParserResult, at: Option<usize>, what: &str) {
    let err = dump::has_error(r);
    emit_n(err as usize);
    match at {
        None => if err { note(what.as_bytes()); fail("program that respects the rule rejected"); },
        Some(p) => {
            if !err { note(what.as_bytes()); fail("program that breaks the rule accepted"); }
            check(r.diagnostics.iter().any(|d| d.level == ErrorLevel::Error && d.loc.begin == p), "the violation is reported at another place");
        }
    }
}
/// text with % for the names in turn; -> offset of the second one
fn fill(src: &mut Vec<u8>, t: &[u8], n: &Names, k: &mut usize, at: &mut usize) {
    let second = *k > 0;
    for c in t.iter() {
        // the other names of the second kind differ from those of the first
        if *c == b'q' && second { src.extend_from_slice(b"qz"); }
        else if *c == b'%' { if *k == 1 { *at = src.len(); } src.extend_from_slice(&n.n[if *k > 0 { 1 } else { 0 }]); *k += 1; } else { src.push(*c); }
    }
}
// ---- duplicate parameters
/// kinds of parameters: text, rank in the list, may be repeated
const KINDS: &[(&str, u32, bool)] = &[
    ("%", 0, true), ("(%, q1)", 0, true), ("(q2, (%))", 0, true), ("(*%)", 0, true), ("(q3, *%, q4)", 0, true),
    ("% = 1", 1, true), ("*%", 2, false), ("%", 3, true), ("(%, q5)", 3, true), ("%:", 4, true), ("%: 1", 4, true), ("**%", 5, false), ("&%", 6, false), (";%", 7, true),
];
const HOLDERS: &[(&str, &str, bool)] = &[("def m(", ") end", false), ("def m ", "\nend", false), ("def self.m(", ") end", false), ("def m(", ") = 1", false), ("m { |", "| }", true), ("m do |", "| end", true), ("->(", ") {}", true), ("-> ", " {}", true), ("m(1).n { |", "| 1 }", true), ("super { |", "| }", true)];
fn params(_t: u32, c: u32) {
    let (open, close, block) = HOLDERS[c as usize];
    let (i, j) = (choose(KINDS.len()), choose(KINDS.len()));
    let ((t1, r1, _), (t2, r2, rep)) = (KINDS[i], KINDS[j]);
    if r1 > r2 || (i == j && !rep) { lrsym_discard(); }
    if (!block || open == "-> ") && r2 == 7 { lrsym_discard(); }
    let pre = choose(2) == 1;
    if (open == "def m " || open == "-> ") && (pre || t1.as_bytes()[0] == b'(') { lrsym_discard(); } // `def m (` opens a parenthesised list
    if r1 == r2 && r1 == 2 { lrsym_discard(); }
    let n = names();
    let mut src = open.as_bytes().to_vec();
    let (mut k, mut at) = (0, 0);
    if pre { src.extend_from_slice(b"(q7, q8), q9"); if r1 < 7 { src.extend_from_slice(b", "); } }
    // a required parameter after the others needs something before it
    if r1 == 3 { src.extend_from_slice(b"*, "); }
    fill(&mut src, t1.as_bytes(), &n, &mut k, &mut at);
    if r2 == 7 { if r1 == 7 { fill(&mut src, b", %", &n, &mut k, &mut at); } else { fill(&mut src, t2.as_bytes(), &n, &mut k, &mut at); } }
    else {
        src.extend_from_slice(b", ");
        if r2 == 3 && r1 == 0 { src.extend_from_slice(b"*, "); }
        fill(&mut src, t2.as_bytes(), &n, &mut k, &mut at);
    }
    src.extend_from_slice(close.as_bytes());
    input(&src);
    let bad = n.n[0] == n.n[1] && !n.under;
    dup(&parse(src), if bad { Some(at) } else { None }, "duplicate parameter names");
}
// ---- names that must differ: V always (but for _names), K also for _names, O never matters
const TWICE: &[(u8, &str)] = &[
    (b'V', "[%, %]"),
    (b'K', "{%: 1, %: 2}"),
    (b'O', "{%: 1, q0: {%: 2}}"), (b'O', "[{%: 1}, {%: 2}]"), (b'O', "{%: 1} | {%: 2}"), (b'O', "A(%: 1, q0: A(%: 2))"), (b'O', "{%: {%: 1}}"), (b'O', "[A(%: 1), {%: 1}]"),
];
fn twice(_t: u32, c: u32) {
    let (mode, p) = TWICE[c as usize];
    let n = names();
    let ctx = choose(5);
    let mut src = vec![];
    let (mut k, mut at) = (0, 0);
    src.extend_from_slice([&b"case 0; in "[..], b"0 => ", b"0 in ", b"case 0\nin [q1]\n1\nin ", b"case [0, 1]; in q1; in "][ctx]);
    fill(&mut src, p.as_bytes(), &n, &mut k, &mut at);
    src.extend_from_slice([&b"; end"[..], b"", b"", b"\n 2\nelse 3\nend", b" if 1 then 2; end"][ctx]);
    input(&src);
    let eq = n.n[0] == n.n[1];
    let bad = match mode { b'V' => eq && !n.under, b'K' => eq, _ => false };
    let r = parse(src);
    // the quoted key is reported with its quotes
    let err = dump::has_error(&r);
    emit_n(err as usize);
    if bad && !err { fail("duplicate name in a pattern accepted"); }
    if !bad && err { fail("pattern with different names rejected"); }
    if bad { check(r.diagnostics.iter().any(|d| d.level == ErrorLevel::Error && (d.loc.begin == at || d.loc.begin + 1 == at)), "the violation is reported at another place"); }
}
// ---- programs that are wrong exactly if the two names are equal (E), different (D), or never (O)
const TWO: &[(u8, &str)] = &[
    (b'E', "def m(% = %) end"), (b'E', "def m(%: %) end"), (b'E', "def m(% = foo(1, %)) end"), (b'E', "def m(q0, % = [%]) end"), (b'E', "m { |% = %| }"), (b'E', "->(% = %) {}"), (b'E', "->(%: %) {}"), (b'E', "m { |q0, %: %| }"), (b'E', "def m(% = (1; %)) = 1"), (b'E', "def self.m(% = \"#{%}\") end"), (b'E', "def m(% = (foo { % })) end"), (b'E', "def m(% = {q0: %}) end"), (b'E', "def m(% = %.foo) end"), (b'E', "def m(% = 1 + %) end"), (b'E', "def m(a1 = 1, % = %, b1) end"),
    (b'O', "def m(% = %()) end"), (b'O', "def m(% = self.%) end"), (b'O', "def m(% = :%) end"), (b'O', "def m(% = @%) end"), (b'O', "def m(% = foo { |%| 1 }) end"), (b'O', "def m(% = ->(%) { 2 }) end"), (b'O', "def m(% = foo(%: 1)) end"), (b'O', "def m(q0 = 1, % = 2) % end"), (b'O', "def m(% = 1) foo(%) end"), (b'O', "def m(%) foo { |x1 = %| } end"), (b'O', "def m(% = 1); end; def n(%) end"), (b'O', "m { |%| n { |%| } }"), (b'O', "m { |%| ->(%) {} }"), (b'O', "def m(%) n { |%| } end"), (b'O', "m { |(%, q0), q1 = 1| % }"),
    (b'D', "% = 1; 0 => ^%"), (b'D', "% = 1; case 0; in [^%, *]; end"), (b'D', "case 0; in [%, ^%]; end"), (b'D', "0 in {q0: %, l: ^%}"), (b'D', "m { |%| 0 => ^% }"), (b'D', "def m(%) 0 in ^% end"), (b'D', "for % in q1; 0 => ^%; end"), (b'D', "% = 1; m { 0 => ^% }"),
];
fn two(_t: u32, c: u32) {
    let (mode, p) = TWO[c as usize];
    let n = names();
    let mut src = vec![];
    let (mut k, mut at) = (0, 0);
    fill(&mut src, p.as_bytes(), &n, &mut k, &mut at);
    input(&src);
    let eq = n.n[0] == n.n[1];
    let bad = match mode { b'E' => eq, b'D' => !eq, _ => false };
    dup(&parse(src), if bad { Some(at) } else { None }, "rule about two names");
}
// ---- _1 .. _9
const RESERVED: &[&str] = &["% = 1", "% += 1", "% ||= 1", "%, q = 1", "q, % = 1", "*% = 1", "(%, q), r = 1", "def m(%) end", "def m(% = 1) end", "def m(*%) end", "def m(%:) end", "def m(%: 1) end", "def m(**%) end", "def m(&%) end", "def m((%, q)) end", "def m((q, *%)) end", "def m(*, %) end", "m { |%| }", "m { |%, q| }", "m { |q, %| }", "m { |% = 1| }", "m { |*%| }", "m { |**%| }", "m { |&%| }", "m { |%:| }", "m { |(%, q)| }", "m { |q; %| }", "m { |;%| }", "->(%) {}", "-> % {}", "->(;%) {}", "->(% = 1) {}", "->(*%) {}", "def %; end", "def %() = 1", "def self.%; end", "def self.% = 1", "for % in q; end", "for q, % in r; end", "begin; rescue => %; end", "0 => %", "0 => [%]", "0 in {k: %}", "0 => {%:}", "0 => [*%]", "0 => {**%}", "case 0; in % then 1; end", "0 => q => %", "m { % = 1 }", "-> { % ||= 1 }", "m { %, q = 1 }"];
const ALLOWED: &[&str] = &["%", "foo.%", "foo.% = 1", "@% = 1", "$% = 1", ":%", "foo(%: 1)", "{%: 1}", "foo.%(1)", "%(1)", "% 1, 2", "def m; %; end", "foo&.% += 1", "alias % foo", "undef %", "foo :%", "\"%\"", "0 => {%: 1}", "m { |q| foo.% }", "m { self.% }"];
const BETA: Set = Set::range(b'a', b'z').or(Set::range(b'A', b'Z')).or(Set::range(b'0', b'9')).or(Set::of(b"_"));
fn reserved(_t: u32, c: u32) {
    let i = c as usize;
    let (t, bad) = if i < RESERVED.len() { (RESERVED[i], true) } else { (ALLOWED[i - RESERVED.len()], false) };
    let shape = choose(4);
    let h = hole(&BETA);
    let name: Vec<u8> = match shape { 0 => vec![b'_', h], 1 => vec![b'_', b'1', h], 2 => vec![b'x', h], _ => vec![b'_', b'_', h] };
    let mut src = vec![];
    for b in t.bytes() { if b == b'%' { src.extend_from_slice(&name); } else { src.push(b); } }
    input(&src);
    let is = shape == 0 && h >= b'1' && h <= b'9';
    let r = parse(src);
    let err = dump::has_error(&r);
    emit_n(err as usize);
    if err && !(bad && is) { fail("ordinary name rejected"); }
    if !err && bad && is { fail("reserved name of a numbered parameter accepted"); }
}
/// numbered parameters in nested blocks: used in at most one of nested blocks, and not with parameters
fn numblocks(t: u32, _c: u32) {
    const OPEN: &[(&str, &str, u8)] = &[("m { ", " }", b'b'), ("m do ", " end", b'b'), ("-> { ", " }", b'b'), ("m { |q| ", " }", b'o'), ("->(q) { ", " }", b'o'), ("m { || ", " }", b'o'), ("m { |;q| ", " }", b'o'), ("def k; ", "; end", b's'), ("class << self; ", "; end", b's'), ("if q1; ", "; end", b'n'), ("foo(", ")", b'n'), ("\"#{", "}\"", b'n'), ("q2 = ", "", b'n'), ("[1, (", ")]", b'n')];
    let depth = if t > 0 { 3 } else { 2 };
    let mut src = vec![];
    let mut close: Vec<&str> = vec![];
    // kinds of the enclosing scopes and what they use; true = uses a numbered parameter
    let mut st: Vec<(u8, bool, bool)> = vec![]; // (kind, used here, used inside)
    let mut bad = false;
    let mut use_ = |src: &mut Vec<u8>, st: &mut Vec<(u8, bool, bool)>, after: &[u8]| -> bool {
        let mut bad = false;
        if choose(2) == 1 {
            src.push(b'_');
            src.push(b'1' + choose(2) as u8);
            let mut i = st.len();
            let mut own = None;
            while i > 0 { i -= 1; if st[i].0 == b's' { break; } if st[i].0 != b'n' { own = Some(i); break; } }
            if let Some(o) = own {
                if st[o].0 == b'o' { bad = true; }
                if st[o].2 { bad = true; }
                let mut i = o;
                while i > 0 { i -= 1; if st[i].0 == b's' { break; } if st[i].1 { bad = true; } }
                st[o].1 = true;
                let mut i = o;
                while i > 0 { i -= 1; if st[i].0 == b's' { break; } st[i].2 = true; }
            }
        } else { src.push(b'1'); }
        src.extend_from_slice(after);
        bad
    };
    let mut d = 0;
    while d < depth {
        let k = choose(OPEN.len());
        let (o, c, s) = OPEN[k];
        src.extend_from_slice(o.as_bytes());
        close.push(c);
        st.push((s, false, false));
        let sep: &[u8] = if o == "foo(" { b", " } else { b"; " };
        if o == "q2 = " { src.extend_from_slice(b"(1)\n"); }
        if use_(&mut src, &mut st, sep) { bad = true; }
        d += 1;
    }
    if use_(&mut src, &mut st, b"") { bad = true; }
    while let Some(c) = close.pop() {
        src.extend_from_slice(c.as_bytes());
        st.pop();
        if !st.is_empty() {
            let paren = *close.last().unwrap() == ")";
            // an assignment is followed by its value, or by a new statement outside of it
            if c.is_empty() && paren { lrsym_discard(); }
            src.extend_from_slice(if paren { b", " } else { b"; " });
            if use_(&mut src, &mut st, b"") { bad = true; }
        }
    }
    input(&src);
    let r = parse(src);
    let err = dump::has_error(&r);
    emit_n(err as usize);
    if err && !bad { fail("blocks with numbered parameters rejected"); }
    if !err && bad { fail("misused numbered parameter accepted"); }
}
// ---- where definitions and assignments are allowed
/// scopes: text before and after, kind: d def, c class/module, s singleton class, b block, n none
const SCOPE: &[(&str, &str, u8)] = &[("def m; ", "; end", b'd'), ("def self.m(a); ", "; end", b'd'), ("def m(a) = (", ")", b'd'), ("def q.m; begin; ", "; end; end", b'd'), ("class A; ", "; end", b'c'), ("module A; ", "; end", b'c'), ("class << self; ", "; end", b's'), ("m { ", " }", b'b'), ("m do |x| ", " end", b'b'), ("-> { ", " }", b'b'), ("if q; ", "; end", b'n'), ("(", ")", b'n'), ("begin; 1; ensure; ", "; end", b'n'), ("class A; def m; end; ", "; end", b'c'), ("def m; def n; end; ", "; end", b'd'), ("def m; class << self; end; ", "; end", b'd'), ("class A; module B; end; ", "; end", b'c'), ("def n() = 1; (", ")", b'n'), ("m { def n; end; ", " }", b'b')];
/// statements: text, class: k constant assignment, c class definition, r return, o allowed everywhere, b BEGIN
const STMT: &[(&str, u8)] = &[("B% = 1", b'k'), ("B% ||= 1", b'k'), ("B%, q = 1", b'k'), ("C::B% = 1", b'k'), ("::B% = 1", b'k'), ("q, *B% = 1", b'k'), ("for B% in q; end", b'k'), ("begin; rescue => B%; end", b'k'), ("class B%; end", b'c'), ("module B%; end", b'c'), ("class C::B% < D; end", b'c'), ("return", b'r'), ("return 1", b'r'), ("1 if return_ = q", b'o'), ("b% = 1", b'o'), ("@b% = 1", b'o'), ("C::B% ||= 1", b'o'), ("B%.c = 1", b'o'), ("B%[1] = 1", b'o'), ("class << q; end", b'o'), ("def b%; end", b'o'), ("def self.b%; end", b'o'), ("b% { |q| q }", b'o'), ("-> { 1 }", b'o'), ("B%", b'o'), ("alias b% c", b'o'), ("BEGIN { 1 }", b'b'), ("END { 1 }", b'o')];
fn places(t: u32, c: u32) {
    let (st, kind) = STMT[c as usize];
    let depth = choose(if t > 0 { 4 } else { 3 });
    let (mut in_def, mut in_class) = (false, false);
    let mut src = vec![];
    let mut close: Vec<&str> = vec![];
    let mut bad = false;
    let mut d = 0;
    while d < depth {
        let (o, e, k) = SCOPE[choose(SCOPE.len())];
        src.extend_from_slice(o.as_bytes());
        close.push(e);
        match k {
            b'd' => { in_def = true; in_class = false; }
            b'c' => { if in_def { bad = true; } in_def = false; in_class = true; }
            b's' => { in_def = false; in_class = false; }
            b'b' => { in_class = false; }
            _ => {}
        }
        d += 1;
    }
    let h = hole(&LOW);
    for b in st.bytes() { src.push(if b == b'%' { h } else { b }); }
    if in_def && (kind == b'k' || kind == b'c') { bad = true; }
    if in_class && kind == b'r' { bad = true; }
    if depth > 0 && kind == b'b' { bad = true; }
    while let Some(e) = close.pop() { src.extend_from_slice(e.as_bytes()); }
    input(&src);
    let r = parse(src);
    let err = dump::has_error(&r);
    emit_n(err as usize);
    if err && !bad { fail("allowed statement rejected"); }
    if !err && bad { fail("statement accepted where it is not allowed"); }
}
pub static C13: &[Group] = &[
    Group { n: crate::p_generic::n_accepted, run: crate::p_generic::accepted },
    Group { n: |_| RULES.len() as u32, run: |_, c| spec(&RULES[c as usize], SHAPE | DIAG) },
    Group { n: |_| HOLDERS.len() as u32, run: params },
    Group { n: |_| TWICE.len() as u32, run: twice },
    Group { n: |_| TWO.len() as u32, run: two },
    Group { n: |_| (RESERVED.len() + ALLOWED.len()) as u32, run: reserved },
    Group { n: |_| 1, run: numblocks },
    Group { n: |_| STMT.len() as u32, run: places },
    Group { n: |t| crate::p_long::n_some(crate::p_long::L13, t), run: |t, c| crate::p_long::some(crate::p_long::L13, t, c) },
];
