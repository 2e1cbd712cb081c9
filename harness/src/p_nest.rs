//! Constructs inside of constructs (C03, C20, C21): a program means the same wherever a program can stand.
use crate::ast::{self, F};
use crate::dump::{self, num};
use crate::p_inv::{has, starts_in};
use crate::props::{input, opts, parse};
use crate::rt::*;
use crate::{corpus, tmpl};
use lib_ruby_parser::*;
use DiagnosticMessage as M;

/// places for statements (`@`, followed by a line break); `true`: several statements are merged into the list around them
const K: &[(&str, bool)] = &[
    ("def qqa\n@\nend", false), ("def qqa(qqb)\n@\nend", false), ("def self.qqa qqb, qqc = 1\n@\nend", false), ("def qqa(...)\n@\nend", false),
    ("def qqa\n@\nrescue Qqe => qqf\nqqg\nelse\nqqh\nensure\nqqi\nend", false), ("def qqa\nqqb\nensure\n@\nend", false), ("def qqa\nqqb\nrescue Qqe\n@\nend", false),
    ("qqa {\n@\n}", false), ("qqa { |qqb|\n@\n}", false), ("qqa do\n@\nend", false), ("qqa do |qqb, (qqc, *qqd)|\n@\nend", false), ("qqa qqb do\n@\nend", false), ("qqa.qqb(1) do\n@\nend", false), ("qqa&.qqb qqc do |qqd|\n@\nend", false),
    ("qqa do\nqqb\nrescue\n@\nend", false), ("super do\n@\nend", false), ("-> {\n@\n}", false), ("-> do\n@\nend", false), ("->(qqa) {\n@\n}", false), ("-> qqa, qqb = 1 do\n@\nend", false), ("qqa -> do\n@\nend do |qqb| end", false), ("qqa -> {\n@\n} do end", false),
    ("(\n@\n)", true), ("begin\n@\nend", true), ("begin\n@\nrescue\nqqa\nensure\nqqb\nend", false), ("begin\nqqa\nrescue Qqe\n@\nelse\nqqb\nend", false), ("begin\nqqa\nensure\n@\nend", false), ("begin\n@\nend while qqa", true), ("begin\nqqa\nrescue\nqqb\nelse\n@\nend", false),
    ("if qqa\n@\nelse\nqqb\nend", false), ("if qqa then qqb else\n@\nend", false), ("if qqa\nqqb\nelsif qqc\n@\nend", false), ("unless qqa\n@\nend", false), ("while qqa do\n@\nend", false), ("until qqa\n@\nend", false), ("for qqa in qqb do\n@\nend", false),
    ("case qqa\nwhen qqb\n@\nelse qqc\nend", false), ("case\nwhen qqb then 1\nelse\n@\nend", false), ("case qqa\nin qqb\n@\nend", false), ("case qqa\nin {qqb:} if qqc\n@\nelse\n1\nend", false), ("case qqa\nin 1 then 2\nelse\n@\nend", false),
    ("class Qqa\n@\nend", false), ("class Qqa < Qqb\n@\nend", false), ("module Qqa\n@\nend", false), ("class << self\n@\nend", false), ("END {\n@\n}", false), ("BEGIN {\n@\n}", false),
    ("\"a#{\n@\n}b\"", true), ("`#{\n@\n}`", true), ("/#{\n@\n}/i", true), ("%W[a#{\n@\n}b c]", true), (":\"#{\n@\n}\"", true), ("{\"#{\n@\n}\": 1}", true), ("%I[#{\n@\n}]", true), ("qqa \"#{\n@\n}\" do |qqb| end", true), ("qqa \"#{\n@\n}\" \"b\"", true), ("%(a(#{\n@\n}))", true),
    // places for values
    ("qqa((\n@\n), qqb)", true), ("qqa(qqb, (\n@\n)) { |qqc| }", true), ("qqa qqb, (\n@\n) do |qqc| end", true), ("qqa ((\n@\n)), qqb", true), ("qqa ((\n@\n)) do |qqc| end", true), ("qqa qqb: (\n@\n)", true), ("qqa(*(\n@\n), **qqb)", true), ("qqa(&(\n@\n))", true),
    ("[(\n@\n), qqa]", true), ("{qqa: (\n@\n)}", true), ("{(\n@\n) => 1}", true), ("qqa[(\n@\n)]", true), ("qqa[(\n@\n)] += 1", true), ("qqa ? (\n@\n) : qqb", true), ("qqa ? qqb : (\n@\n)", true), ("!(0\n@\n)", true), ("-(\n@\n)", true), ("not((0\n@\n))", true), ("defined?((\n@\n))", true),
    ("qqa = (\n@\n)", true), ("qqa += (\n@\n)", true), ("qqa, qqb = (\n@\n), 1", true), ("@qqa ||= begin\n@\nend", true), ("qqa.qqb = (\n@\n)", true), ("QQA = (\n@\n)", true), ("qqa = qqb rescue (\n@\n)", true), ("qqa = qqb = (\n@\n)", true), ("(\n@\n).qqa, qqb[(1)] = 1", true),
    ("def qqa(qqb = (\n@\n), qqc: 1)\nqqb\nend", true), ("def qqa qqb: (\n@\n), **qqc\nqqb\nend", true), ("->(qqb = (\n@\n)) { qqb }", true), ("qqa { |qqb = (\n@\n)| qqb }", true), ("qqa { |qqb: (\n@\n), **qqc| qqb }", true), ("def qqa() = (\n@\n)", true), ("def qqa(qqb) = (\n@\n) rescue 1", true),
    ("while (0\n@\n) do qqb end", true), ("until (0\n@\n)\nqqb\nend", true), ("for qqa in (\n@\n) do qqb end", true), ("if (0\n@\n) then qqb end", true), ("qqa if (0\n@\n)", true), ("qqa while (0\n@\n)", true),
    ("case (\n@\n)\nwhen 1\nend", true), ("case (\n@\n)\nin Qqa then 1\nend", true), ("case qqa\nwhen (\n@\n), 2\n3\nend", true), ("case qqa\nin qqb if (0\n@\n)\n2\nend", true), ("(\n@\n) => qqb", true), ("(\n@\n) in [qqb, *]", true),
    ("return (\n@\n)", true), ("qqa { break (\n@\n) }", true), ("qqa { next [(\n@\n)] }", true), ("def qqa; yield ((\n@\n)), 1; end", true), ("super((\n@\n))", true), ("class Qqa < (\n@\n)\nqqb\nend", true), ("class << (\n@\n)\nqqb\nend", true), ("begin\nqqa\nrescue (\n@\n) => qqb\nend", true),
    ("(\n@\n).qqa { |qqb| }", true), ("(\n@\n)&.qqa += 1", true), ("(\n@\n)::Qqa", true), ("(\n@\n) + 1", true), ("1 ** (\n@\n)", true), ("(\n@\n)..1", true), ("qqa and (\n@\n)", true), ("(\n@\n) && qqa", true), ("(\n@\n) or qqa", true), ("(\n@\n) if qqa", true), ("qqa == (\n@\n)", true), ("qqa !~ (\n@\n)", true),
    // two levels
    ("def qqa\nqqb {\n@\n}\nend", false), ("qqa { class Qqa\n@\nend }", false), ("class Qqa\ndef qqa\n@\nend\nend", false), ("qqa(qqb { (\n@\n) }) do end", true), ("while qqa { (\n@\n) } do end", true), ("-> (qqa = -> { (\n@\n) }) do end", true), ("qqa [qqb do\n@\nend] do end", false),
    ("qqa qqb { |qqc| (\n@\n) }, 1 do |qqd| end", true), ("\"#{\"#{\n@\n}\"}\"", true), ("{qqa: -> {\n@\n}}", false), ("def qqa\nclass << self\ndef qqb\n@\nend\nend\nend", false), ("case qqa\nin qqb\ncase qqc\nin [qqd]\n@\nend\nend", false), ("def qqa(qqb = def qqc(qqd = (\n@\n)) qqd end)\nend", true),
];
const TAIL: &str = "\nqqx qqy do |qqz| end\nwhile qqx do qqy end";

fn marker(n: &Node) -> bool { matches!(n, Node::Send(s) if s.method_name == "qqm") }
struct Map { locs: bool, at: usize, len: usize, begin: usize, end: usize, size: usize }
impl Map {
    fn b(&self, p: usize) -> usize { if p < self.at { p } else if p == self.at { self.at + self.begin } else { p + self.size - self.len } }
    fn e(&self, p: usize) -> usize { if p <= self.at { p } else if p == self.at + self.len { self.at + self.end } else { p + self.size - self.len } }
    fn loc(&self, out: &mut Vec<u8>, l: &Loc) { num(out, self.b(l.begin)); out.push(b'-'); num(out, self.e(l.end)); }
    /// the tree around the place, with `inner` there
    fn node(&self, out: &mut Vec<u8>, n: &Node, inner: &[u8]) {
        if marker(n) { out.extend_from_slice(inner); return; }
        out.push(b'(');
        out.extend_from_slice(ast::name(n).as_bytes());
        ast::fields(n, &mut |name, f| match f {
            F::N(x) | F::M(Some(x)) => { key(out, name); self.node(out, x, inner); }
            F::L(l) => {
                key(out, name);
                out.push(b'[');
                for (i, x) in l.iter().enumerate() { if i > 0 { out.push(b' '); } self.node(out, x, inner); }
                out.push(b']');
            }
            F::S(s) | F::MS(Some(s)) => { key(out, name); out.push(b'"'); out.extend_from_slice(s); out.push(b'"'); }
            F::U(u) => { key(out, name); num(out, u as usize); }
            F::Loc(l) | F::MLoc(Some(l)) => if self.locs { key(out, &name[..name.len() - 2]); self.loc(out, &l); },
            F::M(None) | F::MS(None) | F::MLoc(None) => {}
        });
        out.push(b')');
    }
}
fn key(out: &mut Vec<u8>, k: &str) { out.push(b' '); out.extend_from_slice(k.as_bytes()); out.push(b'='); }
/// the program `s` moved by `at`
fn moved(s: &Node, at: usize, locs: bool) -> Vec<u8> {
    let mut o = vec![];
    Map { locs, at: 0, len: 0, begin: at, end: at, size: at }.node(&mut o, s, b"?");
    o
}
/// a rule about where a construct may stand (C13)
fn place_rule(m: &M) -> bool {
    matches!(m, M::ClassDefinitionInMethodBody {} | M::ModuleDefinitionInMethodBody {} | M::DynamicConstantAssignment {} | M::BeginNotAtTopLevel {} | M::InvalidReturnInClassOrModuleBody {} | M::VoidValueExpression {}
        | M::NumparamUsed {} | M::OrdinaryParamDefined {} | M::SingletonLiteral {} | M::CantAssignToNumparam { .. } | M::InvalidIdToGet { .. } | M::CircularArgumentReference { .. })
}
fn loc_of(n: &Node) -> Loc { *n.expression() }
fn bare_list(n: &Node) -> bool { matches!(n, Node::Begin(b) if b.begin_l.is_none()) }
fn place(k: &str, s: &[u8]) -> (Vec<u8>, usize) {
    let at = k.find('@').unwrap();
    let at = if k[at..].starts_with("@qqa") { at + 1 + k[at + 1..].find('@').unwrap() } else { at };
    let mut v = k.as_bytes()[..at].to_vec();
    v.extend_from_slice(s);
    v.extend_from_slice(&k.as_bytes()[at + 1..]);
    v.extend_from_slice(TAIL.as_bytes());
    (v, at)
}
fn compare(k: &str, merged: bool, s: &[u8], rs: &ParserResult, locs: bool, validate: bool) {
    let sn = match &rs.ast { Some(n) => &**n, None => return };
    if merged && bare_list(sn) { return; }
    let (k0, at) = place(k, b"qqm");
    let (v, _) = place(k, s);
    let r0 = parse(k0);
    if dump::has_error(&r0) { fail("the program around the place is rejected"); }
    input(&v);
    let r = parse(v.clone());
    if dump::has_error(&r) {
        // what follows may be an effect of recovering from it
        if r.diagnostics.iter().find(|d| d.level == ErrorLevel::Error).map_or(false, |d| place_rule(&d.message)) { return; }
        let mut o = vec![];
        dump::diags(&mut o, &r.diagnostics, true);
        note(&o);
        fail("two constructs that are fine alone give an error when nested");
    }
    let l = loc_of(sn);
    let mut want = vec![];
    Map { locs, at, len: 3, begin: l.begin, end: l.end, size: s.len() }.node(&mut want, r0.ast.as_ref().unwrap(), &moved(sn, at, locs));
    let got = dump::ast(&r, locs);
    emit(&got);
    if want != got { note(&want); note(&got); fail(if locs { "the locations of a construct depend on what is around it" } else { "a construct inside of another one is parsed differently" }); }
    if validate { emit_n(Parser::new(v, opts()).do_parse_with_state_validation().tokens.len()); }
}
/// not a program that can stand elsewhere: it says where the program ends, takes the next line, begins with a comment (which the
/// newline token before it covers) or with the one pattern that MRI's lexer does not accept in a lambda either (`-> { case 1; in ...2; end }`)
fn ends(a: &[u8]) -> bool { a[0] == b'#' || starts_in(a, b"in ...") || starts_in(a, b"__END__") || has(a, 0) || has(a, 4) || has(a, 26) || starts_in(a, b"BEGIN") || (a.len() > 1 && a[a.len() - 1] == b'.' && a[a.len() - 2] == b'.') }
const BATCH: usize = 8;
const BATCHES: u32 = ((K.len() + BATCH - 1) / BATCH) as u32;
pub fn n(_t: u32) -> u32 { corpus::total() * BATCHES }
/// one construct in every place; thorough: for all values of its holes
fn one(t: u32, c: u32, locs: bool, validate: bool) {
    let r = corpus::get(c / BATCHES);
    let a = if t == 0 { tmpl::sample(r.t) } else { tmpl::expand(r.t).0 };
    if ends(&a) { return; }
    let rs = parse(a.clone());
    if dump::has_error(&rs) { return; }
    let b = (c % BATCHES) as usize * BATCH;
    let (k, merged) = K[b + choose(if b + BATCH > K.len() { K.len() - b } else { BATCH })];
    compare(k, merged, &a, &rs, locs, validate);
}
pub fn shape(t: u32, c: u32) { one(t, c, false, false) }
pub fn full(t: u32, c: u32) { one(t, c, true, false) }
pub fn state(t: u32, c: u32) { one(t, c, false, true) }
const DEPTHS: &[usize] = &[2, 3, 6, 12];
pub fn n_deep(_t: u32) -> u32 { (K.len() * DEPTHS.len()) as u32 }
/// a place inside of itself, many times (MRI and this parser keep cond/cmdarg state in 64 bits, so not too many)
pub fn deep(_t: u32, c: u32) {
    let (k, merged) = K[c as usize % K.len()];
    let depth = DEPTHS[c as usize / K.len()];
    let (k0, at) = place(k, b"qqm");
    let k1 = &k0[..k0.len() - TAIL.len()];
    let r1 = parse(k1.to_vec());
    let r0 = parse(k0.clone());
    if dump::has_error(&r1) || dump::has_error(&r0) { fail("the program around the place is rejected"); }
    let b = hole(&Set::range(b'a', b'z'));
    let inner = [b'q', b'q', b'm', b];
    let mut src = inner.to_vec();
    let mut want = vec![];
    match &parse(inner.to_vec()).ast { Some(n) => dump::node(&mut want, n, false), None => return }
    if merged && bare_list(r1.ast.as_ref().unwrap()) { return; }
    let m = Map { locs: false, at, len: 3, begin: 0, end: 0, size: 3 };
    for i in 0..depth {
        let (p, q) = (&k1[..at], &k1[at + 3..]);
        let mut v = p.to_vec();
        v.extend_from_slice(&src);
        v.extend_from_slice(q);
        if i + 1 == depth { v.extend_from_slice(TAIL.as_bytes()); }
        src = v;
        let mut w = vec![];
        m.node(&mut w, if i + 1 == depth { r0.ast.as_ref().unwrap() } else { r1.ast.as_ref().unwrap() }, &want);
        want = w;
    }
    input(&src);
    let r = parse(src.clone());
    if dump::has_error(&r) {
        if r.diagnostics.iter().find(|d| d.level == ErrorLevel::Error).map_or(false, |d| place_rule(&d.message)) { return; }
        let mut o = vec![];
        dump::diags(&mut o, &r.diagnostics, true);
        note(&o);
        fail("a construct nested in itself is rejected");
    }
    let got = dump::ast(&r, false);
    emit(&got);
    if want != got { note(&want); note(&got); fail("a construct nested in itself is parsed differently"); }
    emit_n(Parser::new(src, opts()).do_parse_with_state_validation().tokens.len());
}
