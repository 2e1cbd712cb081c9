//! The tree of every accepted program, against its tokens (C03, C20, C22): locations nest, siblings are in order, location fields
//! cover tokens of the right kind, and no token is left out of the tree.
use crate::ast::{self, F};
use crate::dump;
use crate::rt::*;
use lib_ruby_parser::*;

struct Tok { name: &'static str, b: usize, e: usize, own: u32, leaf: bool, whole: bool }

fn name_field(n: &str, f: &str) -> bool { matches!((n, f), ("const", "name_l") | ("kwarg", "name_l") | ("kwoptarg", "name_l") | ("match_var", "name_l") | ("send", "selector_l")) }
/// where a location field of a node may point: the kinds of its token; empty: any token
fn kinds(n: &str, f: &str) -> &'static [&'static str] {
    match (n, f) {
        ("alias", "keyword_l") => &["kALIAS"],
        ("and", "operator_l") => &["tANDOP", "kAND"],
        ("or", "operator_l") => &["tOROP", "kOR"],
        ("and_asgn", "operator_l") | ("or_asgn", "operator_l") | ("op_asgn", "operator_l") => &["tOP_ASGN"],
        ("args", "begin_l") => &["tPIPE", "tLPAREN2", "tLPAREN"],
        ("args", "end_l") => &["tPIPE", "tRPAREN"],
        ("array", "begin_l") => &["tLBRACK", "tQWORDS_BEG", "tWORDS_BEG", "tQSYMBOLS_BEG", "tSYMBOLS_BEG"],
        ("array", "end_l") => &["tRBRACK", "tSTRING_END"],
        ("array_pattern", "begin_l") | ("array_pattern_with_tail", "begin_l") | ("find_pattern", "begin_l") | ("const_pattern", "begin_l") => &["tLBRACK", "tLBRACK2", "tLPAREN2"],
        ("array_pattern", "end_l") | ("array_pattern_with_tail", "end_l") | ("find_pattern", "end_l") | ("const_pattern", "end_l") => &["tRBRACK", "tRPAREN"],
        ("begin", "begin_l") => &["tLPAREN", "tSTRING_DBEG", "tLPAREN2", "tLPAREN_ARG"],
        ("begin", "end_l") => &["tRPAREN", "tSTRING_DEND"],
        ("block", "begin_l") | ("numblock", "begin_l") => &["kDO", "kDO_BLOCK", "tLCURLY", "tLAMBEG", "kDO_LAMBDA", "tLBRACE_ARG"],
        ("block", "end_l") | ("numblock", "end_l") => &["kEND", "tRCURLY"],
        ("block_pass", "operator_l") => &["tAMPER"],
        ("blockarg", "operator_l") => &["tAMPER", "tAMPER2"],
        ("blockarg", "name_l") | ("kwrestarg", "name_l") | ("restarg", "name_l") | ("optarg", "name_l") => &["tIDENTIFIER"],
        ("lvasgn", "name_l") => &["tIDENTIFIER", "tFID"],
        ("break", _) => &["kBREAK"],
        ("next", _) => &["kNEXT"],
        ("return", _) => &["kRETURN"],
        ("undef", _) => &["kUNDEF"],
        ("c_send", "dot_l") => &["tANDDOT"],
        ("send", "dot_l") => &["tDOT", "tCOLON2"],
        ("send", "begin_l") | ("c_send", "begin_l") => &["tLPAREN2", "tLPAREN"],
        ("super", "begin_l") | ("yield", "begin_l") | ("defined", "begin_l") => &["tLPAREN2"],
        ("send", "end_l") | ("c_send", "end_l") | ("super", "end_l") | ("yield", "end_l") | ("defined", "end_l") | ("mlhs", "end_l") | ("procarg0", "end_l") => &["tRPAREN"],
        ("mlhs", "begin_l") | ("procarg0", "begin_l") => &["tLPAREN"],
        ("case", "keyword_l") | ("case_match", "keyword_l") => &["kCASE"],
        ("case", "else_l") | ("case_match", "else_l") | ("rescue", "else_l") => &["kELSE"],
        ("if", "else_l") => &["kELSE", "kELSIF"],
        ("case", "end_l") | ("case_match", "end_l") | ("class", "end_l") | ("module", "end_l") | ("s_class", "end_l") | ("def", "end_l") | ("defs", "end_l") | ("for", "end_l") | ("if", "end_l") | ("kw_begin", "end_l") | ("until", "end_l") | ("while", "end_l") => &["kEND"],
        ("const", "double_colon_l") | ("casgn", "double_colon_l") => &["tCOLON2", "tCOLON3"],
        ("casgn", "name_l") | ("const", "name_l") => &["tCONSTANT"],
        ("cvasgn", "name_l") => &["tCVAR"],
        ("ivasgn", "name_l") => &["tIVAR"],
        ("gvasgn", "name_l") => &["tGVAR"],
        ("casgn", "operator_l") | ("cvasgn", "operator_l") | ("ivasgn", "operator_l") | ("gvasgn", "operator_l") | ("lvasgn", "operator_l") | ("masgn", "operator_l") | ("optarg", "operator_l") | ("index_asgn", "operator_l") | ("send", "operator_l") | ("c_send", "operator_l") | ("def", "assignment_l") | ("defs", "assignment_l") => &["tEQL"],
        ("class", "keyword_l") | ("s_class", "keyword_l") => &["kCLASS"],
        ("module", "keyword_l") => &["kMODULE"],
        ("class", "operator_l") => &["tLT"],
        ("s_class", "operator_l") => &["tLSHFT"],
        ("def", "keyword_l") | ("defs", "keyword_l") => &["kDEF"],
        ("defs", "operator_l") => &["tDOT", "tCOLON2"],
        ("defined", "keyword_l") => &["kDEFINED"],
        ("dstr", "begin_l") => &["tSTRING_BEG"],
        ("dstr", "end_l") | ("str", "end_l") | ("xstr", "end_l") | ("heredoc", "heredoc_end_l") | ("x_heredoc", "heredoc_end_l") => &["tSTRING_END"],
        ("xstr", "begin_l") => &["tXSTRING_BEG"],
        ("dsym", "begin_l") | ("sym", "begin_l") => &["tSYMBEG", "tSTRING_BEG"],
        ("regexp", "begin_l") => &["tREGEXP_BEG"],
        ("e_flip_flop", _) => &["tDOT3", "tBDOT3"],
        ("i_flip_flop", _) => &["tDOT2", "tBDOT2"],
        ("erange", _) => &["tDOT3", "tBDOT3"],
        ("irange", _) => &["tDOT2", "tBDOT2"],
        ("ensure", _) => &["kENSURE"],
        ("complex", _) | ("rational", _) | ("int", _) | ("float", _) => &["tUMINUS_NUM"],
        ("for", "begin_l") | ("while", "begin_l") | ("until", "begin_l") => &["tSEMI", "tNL", "kDO_COND"],
        ("if", "begin_l") | ("when", "begin_l") | ("in_pattern", "begin_l") | ("rescue_body", "begin_l") => &["kTHEN", "tSEMI", "tNL"],
        ("for", "keyword_l") => &["kFOR"],
        ("for", "operator_l") | ("in_pattern", "keyword_l") | ("match_pattern_p", "operator_l") => &["kIN"],
        ("hash", "begin_l") | ("hash_pattern", "begin_l") => &["tLBRACE"],
        ("hash", "end_l") | ("hash_pattern", "end_l") | ("postexe", "end_l") | ("preexe", "end_l") => &["tRCURLY"],
        ("postexe", "begin_l") | ("preexe", "begin_l") => &["tLCURLY"],
        ("postexe", "keyword_l") => &["klEND"],
        ("preexe", "keyword_l") => &["klBEGIN"],
        ("if", "keyword_l") => &["kIF", "kELSIF", "kUNLESS"],
        ("if_guard", _) => &["kIF_MOD"],
        ("unless_guard", _) => &["kUNLESS_MOD"],
        ("if_mod", _) => &["kIF_MOD", "kUNLESS_MOD"],
        ("if_ternary", "colon_l") => &["tCOLON"],
        ("if_ternary", "question_l") => &["tEH"],
        ("index", "begin_l") | ("index_asgn", "begin_l") => &["tLBRACK2"],
        ("index", "end_l") | ("index_asgn", "end_l") => &["tRBRACK"],
        ("kw_begin", "begin_l") => &["kBEGIN"],
        ("kwnilarg", "name_l") | ("match_nil_pattern", "name_l") => &["kNIL"],
        ("kwrestarg", "operator_l") => &["tDSTAR", "tPOW"],
        ("kwsplat", _) | ("match_nil_pattern", "operator_l") => &["tDSTAR"],
        ("match_alt", _) => &["tPIPE"],
        ("match_as", _) | ("match_pattern", _) | ("rescue_body", "assoc_l") => &["tASSOC"],
        ("match_rest", _) => &["tSTAR", "tDSTAR"],
        ("pin", _) => &["tCARET"],
        ("restarg", "operator_l") => &["tSTAR", "tSTAR2"],
        ("splat", _) => &["tSTAR"],
        ("rescue_body", "keyword_l") => &["kRESCUE", "kRESCUE_MOD"],
        ("super", "keyword_l") => &["kSUPER"],
        ("yield", "keyword_l") => &["kYIELD"],
        ("until", "keyword_l") => &["kUNTIL", "kUNTIL_MOD"],
        ("while", "keyword_l") => &["kWHILE", "kWHILE_MOD"],
        ("until_post", _) => &["kUNTIL_MOD"],
        ("while_post", _) => &["kWHILE_MOD"],
        ("when", "keyword_l") => &["kWHEN"],
        _ => &[],
    }
}
fn outside(n: &str, f: &str) -> bool {
    matches!((n, f), ("heredoc", "heredoc_body_l") | ("heredoc", "heredoc_end_l") | ("heredoc", "parts") | ("x_heredoc", "heredoc_body_l") | ("x_heredoc", "heredoc_end_l") | ("x_heredoc", "parts") | ("in_pattern", "begin_l") | ("when", "begin_l"))
}
/// fields whose location need not be the location of one token
fn not_a_token(n: &str, f: &str) -> bool {
    matches!((n, f), ("dsym", "end_l") | ("sym", "end_l") | ("heredoc", "heredoc_body_l") | ("x_heredoc", "heredoc_body_l") | ("kwarg", "name_l") | ("kwoptarg", "name_l") | ("match_var", "name_l") | ("pair", "operator_l") | ("regexp", "end_l") | ("send", "selector_l") | ("const", "name_l") | ("str", "begin_l"))
}
fn bad(n: &str, f: &str, l: &Loc, msg: &str) -> ! {
    let mut o = vec![];
    dump::loc(&mut o, l);
    note(&o);
    let mut m = String::from(msg);
    m.push_str(": ");
    m.push_str(n);
    m.push('.');
    m.push_str(f);
    fail(&m)
}
struct Walk { toks: Vec<Tok>, locs: bool }
impl Walk {
    fn own(&mut self, n: &'static str, f: &'static str, l: &Loc, ex: &Loc) {
        if l.begin > l.end { bad(n, f, l, "an inverted location"); }
        if self.locs && !outside(n, f) && (l.begin < ex.begin || l.end > ex.end) { bad(n, f, l, "a location field outside of its node"); }
        let mut k: &str = "";
        for t in self.toks.iter_mut() { if t.b == l.begin && t.e == l.end { t.own += 1; k = t.name; } else if t.b == l.begin && t.name == "tREGEXP_END" && n == "regexp" && f == "end_l" { t.own += 1; } else if t.b == l.begin && name_field(n, f) && t.name == "tLABEL" && t.e == l.end + 1 { t.own += 1; } }
        if !self.locs { return; }
        if k == "" { if !not_a_token(n, f) { bad(n, f, l, "a location field that is no token"); } return; }
        let ks = kinds(n, f);
        if ks.len() > 0 && !ks.contains(&k) { bad(n, f, l, "a location field at the wrong token"); }
    }
    fn node(&mut self, x: &Node) {
        let n = ast::name(x);
        let ex = *x.expression();
        let mut kids = 0;
        let mut subs: Vec<(&'static str, &Node)> = vec![];
        let mut lists: Vec<(&'static str, &[Node])> = vec![];
        let mut owns: Vec<(&'static str, Loc)> = vec![];
        ast::fields(x, &mut |f, v| match v {
            F::N(c) | F::M(Some(c)) => { kids += 1; subs.push((f, c)); }
            F::L(l) => { kids += l.len(); lists.push((f, l)); for c in l.iter() { subs.push((f, c)); } }
            F::Loc(l) | F::MLoc(Some(l)) => if f != "expression_l" { owns.push((f, l)); },
            _ => {}
        });
        for (f, l) in owns.iter() { self.own(n, f, l, &ex); }
        for t in self.toks.iter_mut() {
            if t.b == ex.begin && t.e == ex.end { t.whole = true; }
            if kids == 0 && t.b >= ex.begin && (t.e <= ex.end || (t.name == "tLABEL" && t.e == ex.end + 1)) { t.leaf = true; }
        }
        if self.locs {
            for (f, c) in subs.iter() {
                let l = c.expression();
                if !outside(n, f) && (l.begin < ex.begin || l.end > ex.end) { bad(n, f, l, "a part outside of its node"); }
            }
            for (f, l) in lists.iter() {
                let mut p: Option<usize> = None;
                for c in l.iter() {
                    let cl = c.expression();
                    if let Some(e) = p { if cl.begin < e { bad(n, f, cl, "siblings overlap or are out of order"); } }
                    p = Some(cl.end);
                }
            }
        }
        for (_, c) in subs.iter() { self.node(c); }
    }
}
/// tokens that the tree does not have to show
fn silent(n: &str) -> bool { matches!(n, "tNL" | "tSEMI" | "tCOMMA" | "tSPACE" | "EOF" | "tSTRING_DVAR" | "tLABEL_END") }
pub fn tree(r: &ParserResult, locs: bool) {
    if dump::has_error(r) { return; }
    let a = match &r.ast { Some(a) => a, None => return };
    let toks = r.tokens.iter().map(|t| Tok { name: t.token_name(), b: t.loc.begin, e: t.loc.end, own: 0, leaf: false, whole: false }).collect();
    let mut w = Walk { toks, locs };
    w.node(a);
    emit_n(w.toks.len());
    if locs { return; }
    let dedent = crate::p_inv::starts_in(r.input.as_shared_bytes(), b"<<~");
    // parentheses around the receiver of a definition and around a nested target are not in the tree
    let mut open: Vec<bool> = vec![];
    for i in 0..w.toks.len() {
        let t = &w.toks[i];
        let shown = t.own > 0 || t.whole || t.leaf;
        match t.name {
            "tLPAREN" | "tLPAREN2" | "tLPAREN_ARG" => {
                let mut p = i;
                while p > 0 && w.toks[p - 1].name == "tNL" { p -= 1; }
                let mut q = i + 1;
                while q < w.toks.len() && w.toks[q].name == "tNL" { q += 1; }
                let may = (p > 0 && (w.toks[p - 1].name == "kDEF" || (t.name == "tLPAREN" && w.toks[p - 1].name == "tLPAREN"))) || (t.name == "tLPAREN" && q < w.toks.len() && w.toks[q].name == "tLPAREN");
                open.push(shown);
                if may { continue; }
            }
            "tRPAREN" => if let Some(o) = open.pop() { if o == shown { continue; } },
            "tSTRING_CONTENT" if dedent => continue,
            _ => {}
        }
        if silent(t.name) || shown { continue; }
        let mut m = String::from("a token of an accepted program is not in its tree: ");
        m.push_str(t.name);
        fail(&m);
    }
}
