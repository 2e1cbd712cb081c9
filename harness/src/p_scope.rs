//! C07: local variables against a reference model of Ruby's scopes.
use crate::ast::{self, F};
use crate::dump;
use crate::p_generic::{spec, DIAG, SHAPE};
use crate::props::*;
use crate::rt::*;
use crate::spec_topics::*;
use lib_ruby_parser::*;

struct Frame { vars: Vec<u8>, open: bool }
struct G { src: Vec<u8>, uses: Vec<(usize, bool)>, frames: Vec<Frame>, n: [u8; 2], def: u32 }
impl G {
    fn new(a: u8, b: u8) -> G { G { src: vec![], uses: vec![], frames: vec![Frame { vars: vec![], open: false }], n: [a, b], def: 0 } }
    fn declared(&self, n: u8) -> bool {
        let mut i = self.frames.len();
        while i > 0 {
            i -= 1;
            if self.frames[i].vars.contains(&n) { return true; }
            if !self.frames[i].open { return false; }
        }
        false
    }
    fn declare(&mut self, n: u8) { let k = self.frames.len() - 1; self.frames[k].vars.push(n); }
    /// template: % the name, ! the same as a declaration that takes effect there, ? a use of the name
    fn text(&mut self, t: &str, n: u8) {
        for c in t.bytes() {
            match c {
                b'%' => self.src.push(n),
                b'!' => { self.declare(n); self.src.push(n); }
                b'?' => { let d = self.declared(n); self.uses.push((self.src.len(), d)); self.src.push(n); }
                c => self.src.push(c),
            }
        }
    }
    fn probe(&mut self) {
        let [a, b] = self.n;
        self.text("[?,", a);
        self.text("?]\n", b);
    }
    fn push(&mut self, open: bool) { self.frames.push(Frame { vars: vec![], open }); }
    fn pop(&mut self) { self.frames.pop(); }
}
/// statements that declare (or do not declare) a name
const DECL: &[&str] = &[
    "! = 1", "! += 1", "! ||= 1", "! &&= 1", "!, foo.bar = 1", "*! = 1", "(!, @y), @x = foo", "!, = foo", "@x, *! = foo", "! = *foo", "! = 1, 2", "! = ?", "foo(! = 1)", "foo[! = 1]", "foo ! = 1", "[! = 1]", "\"#{! = 1}\"", "{k: (! = 1)}", "(! = 1).bar",
    "begin; rescue => !; end", "begin; rescue Foo => !; ?; end", "begin; ! = 1; ensure; ?; end", "for ! in foo; ?; end", "for !, @x in foo do ? end", "for @x, *! in foo; end",
    "foo => !", "foo in !", "case foo; in [!, *]; ?; end", "foo in {k: !}", "foo => {%:}", "case foo; in String => !; end", "foo => [*!]", "foo => {**!}", "case foo; in ! if ?; end", "case foo; in Foo(!); end", "case foo; in [*, !, *]; end", "case foo; in {k: [!]}; end",
    "! = 1 if foo", "? if ! = 1", "if foo; ! = 1; end", "if ! = 1; ?; else ?; end", "while ! = foo; ?; end", "? while ! = foo", "foo ? (! = 1) : ?", "! = 1 rescue ?", "foo && ! = 1", "foo or ! = 1", "not ! = 1", "case ! = 1; when ?; end", "! = -> { ? }", "! = foo { ? }", "! = begin; ?; end", "! = def foo; end", "@x = ! = 1", "foo.bar = ! = 1", "foo => {k: !} rescue nil",
    // no declarations
    "@% = 1", "@@% = 1", "$% = 1", "{%: 1}", "foo(%: 1)", ":%", "foo.% = 1", "self.% = 1", "foo.%", "def %; end", "def self.%; end", "'%'", "\"%\"", "foo.% += 1", "alias % foo", "foo :%", "/%/ =~ 1", "foo { |%| }", "->(%) {}", "def foo(%); end", "foo { % = 1 }", "-> { % = 1 }", "def foo; % = 1; end", "class Foo; % = 1; end", "module Foo; % = 1; end", "class << foo; % = 1; end", "undef %", "?.bar", "?.bar = 1", "?[1] = 1", "foo(&?)", "foo(*?, **?)", "foo ?", "\"#{?}\"", "!?",
];
/// constructs around a body: (before the scope, opening inside it, closing, scope: o open, c closed, n none, d def, after)
const AROUND: &[(&str, &str, &str, u8)] = &[
    ("foo {", "\n", "}", b'o'), ("foo do", "\n", "end", b'o'), ("foo.bar {", "\n", "}", b'o'), ("foo 1 do", "\n", "end", b'o'), ("foo(1) {", "\n", "}", b'o'), ("super {", "\n", "}", b'o'), ("foo&.bar do", "\n", "end", b'o'),
    ("foo { |", "!|\n", "}", b'o'), ("foo do |", "!|\n", "end", b'o'), ("foo { |", "! = 1|\n", "}", b'o'), ("foo { |", "*!|\n", "}", b'o'), ("foo { |", "!:|\n", "}", b'o'), ("foo { |", "!: 1|\n", "}", b'o'), ("foo { |", "**!|\n", "}", b'o'), ("foo { |", "&!|\n", "}", b'o'), ("foo { |", "(!, *)|\n", "}", b'o'), ("foo { |", ";!|\n", "}", b'o'), ("foo { |", "zzz;!|\n", "}", b'o'), ("foo { |", "!, www = ?|\n", "}", b'o'), ("foo { |", "!,|\n", "}", b'o'), ("foo { |", "(*!), www|\n", "}", b'o'), ("foo { |", "www, ((!, uuu), *)|\n", "}", b'o'),
    ("-> {", "\n", "}", b'o'), ("-> do", "\n", "end", b'o'), ("->(", "!) {\n", "}", b'o'), ("->", " ! {\n", "}", b'o'), ("->(", ";!) {\n", "}", b'o'), ("->(", "! = 1, *www) do\n", "end", b'o'), ("->(", "!:) {\n", "}", b'o'), ("->(", "**!) {\n", "}", b'o'), ("->(", "&!) {\n", "}", b'o'), ("->(", "*!) {\n", "}", b'o'), ("lambda {", "\n", "}", b'o'),
    ("def foo", "\n", "end", b'd'), ("def foo(", "!)\n", "end", b'd'), ("def foo", " !\n", "end", b'd'), ("def self.foo(", "!)\n", "end", b'd'), ("def foo(", "! = 1, *rrr)\n", "end", b'd'), ("def foo(", "!:)\n", "end", b'd'), ("def foo(", "!: 1)\n", "end", b'd'), ("def foo(", "**!)\n", "end", b'd'), ("def foo(", "&!)\n", "end", b'd'), ("def foo(", "*!)\n", "end", b'd'), ("def foo(", "(!, *))\n", "end", b'd'), ("def foo(", "!, www = ?)\n", "end", b'd'), ("def foo(", "!) = (\n", ")", b'd'), ("def self.foo =", " (\n", ")", b'd'), ("def foo(", "*, !)\n", "end", b'd'), ("def foo.bar(", "!)\n", "end", b'd'),
    ("class Foo", "\n", "end", b'c'), ("class Foo < (? ; Bar)", "\n", "end", b'c'), ("class Foo::Bar", "\n", "end", b'c'), ("module Foo", "\n", "end", b'c'), ("module Foo::Bar", "\n", "end", b'c'), ("class << self", "\n", "end", b'c'), ("class << (! = 1)", "\n", "end", b'c'), ("class Foo < (! = Bar)", "\n", "end", b'c'),
    ("if foo", "\n", "end", b'n'), ("unless foo", "\n", "end", b'n'), ("if ! = 1", "\n", "end", b'n'), ("while foo", "\n", "end", b'n'), ("until ! = foo do", "\n", "end", b'n'), ("begin", "\n", "end", b'n'), ("begin\nfoo\nrescue => !", "\n", "end", b'n'), ("begin\n! = 1\nrescue", "\n", "end", b'n'), ("begin; foo; ensure", "\n", "end", b'n'), ("begin; rescue; else", "\n", "end", b'n'), ("case foo\nwhen 1", "\n", "end", b'n'), ("case foo\nin !", "\n", "end", b'n'), ("case foo\nin [!, {k: 1}]", "\n", "end", b'n'), ("case foo\nin {%:}", "\n", "end", b'm'), ("for ! in foo", "\n", "end", b'n'), ("for !, @x in foo do", "\n", "end", b'n'), ("(", "\n", ")", b'n'), ("\"#{", "\n", "}\"", b'n'), ("foo((", "\n", "))", b'n'), ("bar = begin", "\n", "end", b'n'), ("foo[(", "\n", ")] = 1", b'n'), ("[(", "\n", ")]", b'n'), ("!((", "\n", "))", b'x'), ("if foo; ! = 1; else", "\n", "end", b'n'), ("foo ? (", "\n", ") : 1", b'n'), ("BEGIN {", "\n", "}", b'b'), ("END {", "\n", "}", b'e'), ("{k: (", "\n", ")}", b'n'), ("foo(k: (", "\n", "))", b'n'), ("return (", "\n", ")", b'r'), ("! = (", "\n", ")", b'n'), ("! ||= (", "\n", ")", b'n'), ("`#{", "\n", "}`", b'n'), ("/#{", "\n", "}/", b'n'), (":\"#{", "\n", "}\"", b'n'),
];
fn body(g: &mut G, depth: u32, pick: &dyn Fn(u32) -> usize) {
    g.probe();
    if depth > 0 { slot(g, depth, pick); g.probe(); }
}
/// a statement; `pick(n)` chooses among n
fn decl(g: &mut G, k: usize, n: u8) {
    let t = DECL[k];
    if g.def > 0 && (t.starts_with("class Foo") || t.starts_with("module Foo")) { lrsym_discard(); }
    if t == "!?" { g.text("not ?", n); } // `!` is taken in these templates
    else if t == "foo => {%:}" { g.declare(n); g.text(t, n); }
    else if t == "foo ? (! = 1) : ?" { g.text("foo", n); g.src.extend_from_slice(b" ? "); g.text("(! = 1) : ?", n); }
    else { g.text(t, n); }
    g.src.push(b'\n');
}
fn around(g: &mut G, k: usize, n: u8, depth: u32, pick: &dyn Fn(u32) -> usize) {
    let (a, b, c, s) = AROUND[k];
    if s == b'b' && (g.frames.len() > 1 || depth > 100) { lrsym_discard(); }
    if s == b'b' || s == b'e' || s == b'x' { lrsym_discard(); } // BEGIN and END blocks: see the templates
    if s == b'c' && g.def > 0 { if !a.starts_with("class <<") { lrsym_discard(); } }
    if s == b'r' && g.frames.len() > 1 { lrsym_discard(); }
    if a.starts_with("foo ? (") { g.src.extend_from_slice(b"foo ? ("); }
    else if s == b'm' { g.declare(n); g.text(a, n); }
    else { g.text(a, n); }
    match s {
        b'o' => g.push(true),
        b'd' => { g.push(false); g.def += 1; }
        b'c' => g.push(false),
        _ => {}
    }
    // a class body inside of a method body that is inside of a class ... `def` is relative to the class
    let def = g.def;
    if s == b'c' { g.def = 0; }
    g.text(b, n);
    body(g, depth, pick);
    g.def = def;
    g.src.extend_from_slice(c.as_bytes());
    match s {
        b'o' | b'c' => g.pop(),
        b'd' => { g.pop(); g.def -= 1; }
        _ => {}
    }
    g.src.push(b'\n');
}
fn slot(g: &mut G, depth: u32, pick: &dyn Fn(u32) -> usize) {
    let n = g.n[choose(2)];
    let k = pick(depth);
    if k < DECL.len() { decl(g, k, n); } else { around(g, k - DECL.len(), n, depth - 1, pick); }
}
fn collect(x: &Node, out: &mut Vec<(usize, bool)>) {
    let k = ast::name(x);
    if k == "lvar" || k == "send" {
        let (mut name, mut at, mut recv) = (vec![], 0, false);
        ast::fields(x, &mut |f, v| match (f, v) { ("name", F::S(s)) | ("method_name", F::S(s)) => name = s.to_vec(), ("expression_l", F::Loc(l)) => at = l.begin, ("recv", F::M(Some(_))) => recv = true, _ => {} });
        if !recv && name.len() == 1 && name[0] >= b'a' { out.push((at, k == "lvar")); }
    }
    ast::fields(x, &mut |_, f| match f { F::N(y) | F::M(Some(y)) => collect(y, out), F::L(l) => for y in l.iter() { collect(y, out); }, _ => {} });
}
fn judge(g: G) {
    let src = g.src;
    input(&src);
    let r = parse(src);
    if dump::has_error(&r) { fail("well-formed program rejected"); }
    let mut got = vec![];
    match &r.ast { Some(a) => collect(a, &mut got), None => fail("no tree") }
    let mut i = 1;
    while i < got.len() { let mut k = i; while k > 0 && got[k - 1].0 > got[k].0 { got.swap(k - 1, k); k -= 1; } i += 1; }
    emit_n(got.len());
    for (p, l) in got.iter() { emit_n(*p * 2 + *l as usize); }
    check(got.len() == g.uses.len(), "another number of identifiers than in the source");
    let mut i = 0;
    while i < got.len() {
        check(got[i].0 == g.uses[i].0, "identifier at another place");
        if got[i].1 != g.uses[i].1 { emit_n(got[i].0); fail(if got[i].1 { "identifier taken for a local variable" } else { "local variable taken for a method call" }); }
        i += 1;
    }
}
const NAME: Set = Set::of(b"abcdefghijklmnopqrstuvwxyz");
fn start(sym: bool) -> G {
    let mut g = G::new(if sym { hole(&NAME) } else { b'a' }, b'k');
    if choose(2) == 1 { let n = g.n[0]; g.text("! = 0\n", n); }
    g.probe();
    g
}
/// one declaration
fn one(_t: u32, c: u32) {
    let mut g = start(true);
    let n = g.n[choose(2)];
    decl(&mut g, c as usize, n);
    g.probe();
    // `x -1`, `x [1]`: subtraction or index of a variable, argument of a method
    let n = g.n[0];
    g.text("? -1\n", n);
    g.text("? [1]\n", n);
    g.text("? *foo\n", n);
    judge(g);
}
/// a construct around one more statement (thoroughly: around two levels)
fn nested(t: u32, c: u32) {
    let mut g = start(t > 0);
    let n = g.n[choose(2)];
    let all = DECL.len() + AROUND.len();
    let depth = 1 + t;
    around(&mut g, c as usize, n, depth, &|d| if d > 1 { DECL.len() + choose(AROUND.len()) } else { choose(all.min(DECL.len())) });
    g.probe();
    judge(g);
}
/// constructs in constructs, assignment inside
fn deep(_t: u32, c: u32) {
    let mut g = G::new(b'a', b'b');
    if choose(2) == 1 { g.text("! = 0\n", b'a'); }
    let n = g.n[choose(2)];
    around(&mut g, c as usize, n, 2, &|d| if d > 1 { DECL.len() + choose(AROUND.len()) } else { 0 });
    g.probe();
    judge(g);
}
/// one construct after another
fn pair(_t: u32, c: u32) {
    let mut g = G::new(b'a', b'b');
    g.probe();
    around(&mut g, c as usize, b'a', 1, &|_| 0);
    g.probe();
    let k = choose(AROUND.len());
    around(&mut g, k, b'b', 0, &|_| 0);
    g.probe();
    judge(g);
}
pub static C07: &[Group] = &[
    Group { n: |_| DECL.len() as u32, run: one },
    Group { n: |_| AROUND.len() as u32, run: nested },
    Group { n: |_| AROUND.len() as u32, run: deep },
    Group { n: |_| AROUND.len() as u32, run: pair },
    Group { n: |_| SCOPES.len() as u32, run: |_, c| spec(&SCOPES[c as usize], SHAPE | DIAG) },
    Group { n: |t| crate::p_long::n_some(crate::p_long::L07, t), run: |t, c| crate::p_long::some(crate::p_long::L07, t, c) },
];
