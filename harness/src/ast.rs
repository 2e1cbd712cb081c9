// generated by tools/gen_ast.py - do not edit
use lib_ruby_parser::{Node, Loc};
#[derive(Clone, Copy)]
pub enum F<'a> { N(&'a Node), M(Option<&'a Node>), L(&'a [Node]), Loc(Loc), MLoc(Option<Loc>), S(&'a [u8]), MS(Option<&'a [u8]>), U(u8) }
pub fn name(n: &Node) -> &'static str { match n {
    Node::Alias(_) => "alias",
    Node::And(_) => "and",
    Node::AndAsgn(_) => "and_asgn",
    Node::Arg(_) => "arg",
    Node::Args(_) => "args",
    Node::Array(_) => "array",
    Node::ArrayPattern(_) => "array_pattern",
    Node::ArrayPatternWithTail(_) => "array_pattern_with_tail",
    Node::BackRef(_) => "back_ref",
    Node::Begin(_) => "begin",
    Node::Block(_) => "block",
    Node::Blockarg(_) => "blockarg",
    Node::BlockPass(_) => "block_pass",
    Node::Break(_) => "break",
    Node::Case(_) => "case",
    Node::CaseMatch(_) => "case_match",
    Node::Casgn(_) => "casgn",
    Node::Cbase(_) => "cbase",
    Node::Class(_) => "class",
    Node::Complex(_) => "complex",
    Node::Const(_) => "const",
    Node::ConstPattern(_) => "const_pattern",
    Node::CSend(_) => "c_send",
    Node::Cvar(_) => "cvar",
    Node::Cvasgn(_) => "cvasgn",
    Node::Def(_) => "def",
    Node::Defined(_) => "defined",
    Node::Defs(_) => "defs",
    Node::Dstr(_) => "dstr",
    Node::Dsym(_) => "dsym",
    Node::EFlipFlop(_) => "e_flip_flop",
    Node::EmptyElse(_) => "empty_else",
    Node::Encoding(_) => "encoding",
    Node::Ensure(_) => "ensure",
    Node::Erange(_) => "erange",
    Node::False(_) => "false",
    Node::File(_) => "file",
    Node::FindPattern(_) => "find_pattern",
    Node::Float(_) => "float",
    Node::For(_) => "for",
    Node::ForwardArg(_) => "forward_arg",
    Node::ForwardedArgs(_) => "forwarded_args",
    Node::Gvar(_) => "gvar",
    Node::Gvasgn(_) => "gvasgn",
    Node::Hash(_) => "hash",
    Node::HashPattern(_) => "hash_pattern",
    Node::Heredoc(_) => "heredoc",
    Node::If(_) => "if",
    Node::IfGuard(_) => "if_guard",
    Node::IFlipFlop(_) => "i_flip_flop",
    Node::IfMod(_) => "if_mod",
    Node::IfTernary(_) => "if_ternary",
    Node::Index(_) => "index",
    Node::IndexAsgn(_) => "index_asgn",
    Node::InPattern(_) => "in_pattern",
    Node::Int(_) => "int",
    Node::Irange(_) => "irange",
    Node::Ivar(_) => "ivar",
    Node::Ivasgn(_) => "ivasgn",
    Node::Kwarg(_) => "kwarg",
    Node::Kwargs(_) => "kwargs",
    Node::KwBegin(_) => "kw_begin",
    Node::Kwnilarg(_) => "kwnilarg",
    Node::Kwoptarg(_) => "kwoptarg",
    Node::Kwrestarg(_) => "kwrestarg",
    Node::Kwsplat(_) => "kwsplat",
    Node::Lambda(_) => "lambda",
    Node::Line(_) => "line",
    Node::Lvar(_) => "lvar",
    Node::Lvasgn(_) => "lvasgn",
    Node::Masgn(_) => "masgn",
    Node::MatchAlt(_) => "match_alt",
    Node::MatchAs(_) => "match_as",
    Node::MatchCurrentLine(_) => "match_current_line",
    Node::MatchNilPattern(_) => "match_nil_pattern",
    Node::MatchPattern(_) => "match_pattern",
    Node::MatchPatternP(_) => "match_pattern_p",
    Node::MatchRest(_) => "match_rest",
    Node::MatchVar(_) => "match_var",
    Node::MatchWithLvasgn(_) => "match_with_lvasgn",
    Node::Mlhs(_) => "mlhs",
    Node::Module(_) => "module",
    Node::Next(_) => "next",
    Node::Nil(_) => "nil",
    Node::NthRef(_) => "nth_ref",
    Node::Numblock(_) => "numblock",
    Node::OpAsgn(_) => "op_asgn",
    Node::Optarg(_) => "optarg",
    Node::Or(_) => "or",
    Node::OrAsgn(_) => "or_asgn",
    Node::Pair(_) => "pair",
    Node::Pin(_) => "pin",
    Node::Postexe(_) => "postexe",
    Node::Preexe(_) => "preexe",
    Node::Procarg0(_) => "procarg0",
    Node::Rational(_) => "rational",
    Node::Redo(_) => "redo",
    Node::Regexp(_) => "regexp",
    Node::RegOpt(_) => "reg_opt",
    Node::Rescue(_) => "rescue",
    Node::RescueBody(_) => "rescue_body",
    Node::Restarg(_) => "restarg",
    Node::Retry(_) => "retry",
    Node::Return(_) => "return",
    Node::SClass(_) => "s_class",
    Node::Self_(_) => "self_",
    Node::Send(_) => "send",
    Node::Shadowarg(_) => "shadowarg",
    Node::Splat(_) => "splat",
    Node::Str(_) => "str",
    Node::Super(_) => "super",
    Node::Sym(_) => "sym",
    Node::True(_) => "true",
    Node::Undef(_) => "undef",
    Node::UnlessGuard(_) => "unless_guard",
    Node::Until(_) => "until",
    Node::UntilPost(_) => "until_post",
    Node::When(_) => "when",
    Node::While(_) => "while",
    Node::WhilePost(_) => "while_post",
    Node::XHeredoc(_) => "x_heredoc",
    Node::Xstr(_) => "xstr",
    Node::Yield(_) => "yield",
    Node::ZSuper(_) => "z_super",
} }
pub fn fields<'a>(n: &'a Node, f: &mut dyn FnMut(&'static str, F<'a>)) { match n {
    Node::Alias(x) => { f("to", F::N(&x.to)); f("from", F::N(&x.from)); f("keyword_l", F::Loc(x.keyword_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::And(x) => { f("lhs", F::N(&x.lhs)); f("rhs", F::N(&x.rhs)); f("operator_l", F::Loc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::AndAsgn(x) => { f("recv", F::N(&x.recv)); f("value", F::N(&x.value)); f("operator_l", F::Loc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Arg(x) => { f("name", F::S(x.name.as_bytes())); f("expression_l", F::Loc(x.expression_l)); }
    Node::Args(x) => { f("args", F::L(&x.args)); f("expression_l", F::Loc(x.expression_l)); f("begin_l", F::MLoc(x.begin_l)); f("end_l", F::MLoc(x.end_l)); }
    Node::Array(x) => { f("elements", F::L(&x.elements)); f("begin_l", F::MLoc(x.begin_l)); f("end_l", F::MLoc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::ArrayPattern(x) => { f("elements", F::L(&x.elements)); f("begin_l", F::MLoc(x.begin_l)); f("end_l", F::MLoc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::ArrayPatternWithTail(x) => { f("elements", F::L(&x.elements)); f("begin_l", F::MLoc(x.begin_l)); f("end_l", F::MLoc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::BackRef(x) => { f("name", F::S(x.name.as_bytes())); f("expression_l", F::Loc(x.expression_l)); }
    Node::Begin(x) => { f("statements", F::L(&x.statements)); f("begin_l", F::MLoc(x.begin_l)); f("end_l", F::MLoc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Block(x) => { f("call", F::N(&x.call)); f("args", F::M(x.args.as_deref())); f("body", F::M(x.body.as_deref())); f("begin_l", F::Loc(x.begin_l)); f("end_l", F::Loc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Blockarg(x) => { f("name", F::MS(x.name.as_ref().map(|s| s.as_bytes()))); f("operator_l", F::Loc(x.operator_l)); f("name_l", F::MLoc(x.name_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::BlockPass(x) => { f("value", F::M(x.value.as_deref())); f("operator_l", F::Loc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Break(x) => { f("args", F::L(&x.args)); f("keyword_l", F::Loc(x.keyword_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Case(x) => { f("expr", F::M(x.expr.as_deref())); f("when_bodies", F::L(&x.when_bodies)); f("else_body", F::M(x.else_body.as_deref())); f("keyword_l", F::Loc(x.keyword_l)); f("else_l", F::MLoc(x.else_l)); f("end_l", F::Loc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::CaseMatch(x) => { f("expr", F::N(&x.expr)); f("in_bodies", F::L(&x.in_bodies)); f("else_body", F::M(x.else_body.as_deref())); f("keyword_l", F::Loc(x.keyword_l)); f("else_l", F::MLoc(x.else_l)); f("end_l", F::Loc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Casgn(x) => { f("scope", F::M(x.scope.as_deref())); f("name", F::S(x.name.as_bytes())); f("value", F::M(x.value.as_deref())); f("double_colon_l", F::MLoc(x.double_colon_l)); f("name_l", F::Loc(x.name_l)); f("operator_l", F::MLoc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Cbase(x) => { f("expression_l", F::Loc(x.expression_l)); }
    Node::Class(x) => { f("name", F::N(&x.name)); f("superclass", F::M(x.superclass.as_deref())); f("body", F::M(x.body.as_deref())); f("keyword_l", F::Loc(x.keyword_l)); f("operator_l", F::MLoc(x.operator_l)); f("end_l", F::Loc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Complex(x) => { f("value", F::S(x.value.as_bytes())); f("operator_l", F::MLoc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Const(x) => { f("scope", F::M(x.scope.as_deref())); f("name", F::S(x.name.as_bytes())); f("double_colon_l", F::MLoc(x.double_colon_l)); f("name_l", F::Loc(x.name_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::ConstPattern(x) => { f("const_", F::N(&x.const_)); f("pattern", F::N(&x.pattern)); f("begin_l", F::Loc(x.begin_l)); f("end_l", F::Loc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::CSend(x) => { f("recv", F::N(&x.recv)); f("method_name", F::S(x.method_name.as_bytes())); f("args", F::L(&x.args)); f("dot_l", F::Loc(x.dot_l)); f("selector_l", F::MLoc(x.selector_l)); f("begin_l", F::MLoc(x.begin_l)); f("end_l", F::MLoc(x.end_l)); f("operator_l", F::MLoc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Cvar(x) => { f("name", F::S(x.name.as_bytes())); f("expression_l", F::Loc(x.expression_l)); }
    Node::Cvasgn(x) => { f("name", F::S(x.name.as_bytes())); f("value", F::M(x.value.as_deref())); f("name_l", F::Loc(x.name_l)); f("operator_l", F::MLoc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Def(x) => { f("name", F::S(x.name.as_bytes())); f("args", F::M(x.args.as_deref())); f("body", F::M(x.body.as_deref())); f("keyword_l", F::Loc(x.keyword_l)); f("name_l", F::Loc(x.name_l)); f("end_l", F::MLoc(x.end_l)); f("assignment_l", F::MLoc(x.assignment_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Defined(x) => { f("value", F::N(&x.value)); f("keyword_l", F::Loc(x.keyword_l)); f("begin_l", F::MLoc(x.begin_l)); f("end_l", F::MLoc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Defs(x) => { f("definee", F::N(&x.definee)); f("name", F::S(x.name.as_bytes())); f("args", F::M(x.args.as_deref())); f("body", F::M(x.body.as_deref())); f("keyword_l", F::Loc(x.keyword_l)); f("operator_l", F::Loc(x.operator_l)); f("name_l", F::Loc(x.name_l)); f("assignment_l", F::MLoc(x.assignment_l)); f("end_l", F::MLoc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Dstr(x) => { f("parts", F::L(&x.parts)); f("begin_l", F::MLoc(x.begin_l)); f("end_l", F::MLoc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Dsym(x) => { f("parts", F::L(&x.parts)); f("begin_l", F::MLoc(x.begin_l)); f("end_l", F::MLoc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::EFlipFlop(x) => { f("left", F::M(x.left.as_deref())); f("right", F::M(x.right.as_deref())); f("operator_l", F::Loc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::EmptyElse(x) => { f("expression_l", F::Loc(x.expression_l)); }
    Node::Encoding(x) => { f("expression_l", F::Loc(x.expression_l)); }
    Node::Ensure(x) => { f("body", F::M(x.body.as_deref())); f("ensure", F::M(x.ensure.as_deref())); f("keyword_l", F::Loc(x.keyword_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Erange(x) => { f("left", F::M(x.left.as_deref())); f("right", F::M(x.right.as_deref())); f("operator_l", F::Loc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::False(x) => { f("expression_l", F::Loc(x.expression_l)); }
    Node::File(x) => { f("expression_l", F::Loc(x.expression_l)); }
    Node::FindPattern(x) => { f("elements", F::L(&x.elements)); f("begin_l", F::MLoc(x.begin_l)); f("end_l", F::MLoc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Float(x) => { f("value", F::S(x.value.as_bytes())); f("operator_l", F::MLoc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::For(x) => { f("iterator", F::N(&x.iterator)); f("iteratee", F::N(&x.iteratee)); f("body", F::M(x.body.as_deref())); f("keyword_l", F::Loc(x.keyword_l)); f("operator_l", F::Loc(x.operator_l)); f("begin_l", F::Loc(x.begin_l)); f("end_l", F::Loc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::ForwardArg(x) => { f("expression_l", F::Loc(x.expression_l)); }
    Node::ForwardedArgs(x) => { f("expression_l", F::Loc(x.expression_l)); }
    Node::Gvar(x) => { f("name", F::S(x.name.as_bytes())); f("expression_l", F::Loc(x.expression_l)); }
    Node::Gvasgn(x) => { f("name", F::S(x.name.as_bytes())); f("value", F::M(x.value.as_deref())); f("name_l", F::Loc(x.name_l)); f("operator_l", F::MLoc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Hash(x) => { f("pairs", F::L(&x.pairs)); f("begin_l", F::MLoc(x.begin_l)); f("end_l", F::MLoc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::HashPattern(x) => { f("elements", F::L(&x.elements)); f("begin_l", F::MLoc(x.begin_l)); f("end_l", F::MLoc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Heredoc(x) => { f("parts", F::L(&x.parts)); f("heredoc_body_l", F::Loc(x.heredoc_body_l)); f("heredoc_end_l", F::Loc(x.heredoc_end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::If(x) => { f("cond", F::N(&x.cond)); f("if_true", F::M(x.if_true.as_deref())); f("if_false", F::M(x.if_false.as_deref())); f("keyword_l", F::Loc(x.keyword_l)); f("begin_l", F::Loc(x.begin_l)); f("else_l", F::MLoc(x.else_l)); f("end_l", F::MLoc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::IfGuard(x) => { f("cond", F::N(&x.cond)); f("keyword_l", F::Loc(x.keyword_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::IFlipFlop(x) => { f("left", F::M(x.left.as_deref())); f("right", F::M(x.right.as_deref())); f("operator_l", F::Loc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::IfMod(x) => { f("cond", F::N(&x.cond)); f("if_true", F::M(x.if_true.as_deref())); f("if_false", F::M(x.if_false.as_deref())); f("keyword_l", F::Loc(x.keyword_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::IfTernary(x) => { f("cond", F::N(&x.cond)); f("if_true", F::N(&x.if_true)); f("if_false", F::N(&x.if_false)); f("question_l", F::Loc(x.question_l)); f("colon_l", F::Loc(x.colon_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Index(x) => { f("recv", F::N(&x.recv)); f("indexes", F::L(&x.indexes)); f("begin_l", F::Loc(x.begin_l)); f("end_l", F::Loc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::IndexAsgn(x) => { f("recv", F::N(&x.recv)); f("indexes", F::L(&x.indexes)); f("value", F::M(x.value.as_deref())); f("begin_l", F::Loc(x.begin_l)); f("end_l", F::Loc(x.end_l)); f("operator_l", F::MLoc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::InPattern(x) => { f("pattern", F::N(&x.pattern)); f("guard", F::M(x.guard.as_deref())); f("body", F::M(x.body.as_deref())); f("keyword_l", F::Loc(x.keyword_l)); f("begin_l", F::Loc(x.begin_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Int(x) => { f("value", F::S(x.value.as_bytes())); f("operator_l", F::MLoc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Irange(x) => { f("left", F::M(x.left.as_deref())); f("right", F::M(x.right.as_deref())); f("operator_l", F::Loc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Ivar(x) => { f("name", F::S(x.name.as_bytes())); f("expression_l", F::Loc(x.expression_l)); }
    Node::Ivasgn(x) => { f("name", F::S(x.name.as_bytes())); f("value", F::M(x.value.as_deref())); f("name_l", F::Loc(x.name_l)); f("operator_l", F::MLoc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Kwarg(x) => { f("name", F::S(x.name.as_bytes())); f("name_l", F::Loc(x.name_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Kwargs(x) => { f("pairs", F::L(&x.pairs)); f("expression_l", F::Loc(x.expression_l)); }
    Node::KwBegin(x) => { f("statements", F::L(&x.statements)); f("begin_l", F::MLoc(x.begin_l)); f("end_l", F::MLoc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Kwnilarg(x) => { f("name_l", F::Loc(x.name_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Kwoptarg(x) => { f("name", F::S(x.name.as_bytes())); f("default", F::N(&x.default)); f("name_l", F::Loc(x.name_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Kwrestarg(x) => { f("name", F::MS(x.name.as_ref().map(|s| s.as_bytes()))); f("operator_l", F::Loc(x.operator_l)); f("name_l", F::MLoc(x.name_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Kwsplat(x) => { f("value", F::N(&x.value)); f("operator_l", F::Loc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Lambda(x) => { f("expression_l", F::Loc(x.expression_l)); }
    Node::Line(x) => { f("expression_l", F::Loc(x.expression_l)); }
    Node::Lvar(x) => { f("name", F::S(x.name.as_bytes())); f("expression_l", F::Loc(x.expression_l)); }
    Node::Lvasgn(x) => { f("name", F::S(x.name.as_bytes())); f("value", F::M(x.value.as_deref())); f("name_l", F::Loc(x.name_l)); f("operator_l", F::MLoc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Masgn(x) => { f("lhs", F::N(&x.lhs)); f("rhs", F::N(&x.rhs)); f("operator_l", F::Loc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::MatchAlt(x) => { f("lhs", F::N(&x.lhs)); f("rhs", F::N(&x.rhs)); f("operator_l", F::Loc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::MatchAs(x) => { f("value", F::N(&x.value)); f("as_", F::N(&x.as_)); f("operator_l", F::Loc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::MatchCurrentLine(x) => { f("re", F::N(&x.re)); f("expression_l", F::Loc(x.expression_l)); }
    Node::MatchNilPattern(x) => { f("operator_l", F::Loc(x.operator_l)); f("name_l", F::Loc(x.name_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::MatchPattern(x) => { f("value", F::N(&x.value)); f("pattern", F::N(&x.pattern)); f("operator_l", F::Loc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::MatchPatternP(x) => { f("value", F::N(&x.value)); f("pattern", F::N(&x.pattern)); f("operator_l", F::Loc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::MatchRest(x) => { f("name", F::M(x.name.as_deref())); f("operator_l", F::Loc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::MatchVar(x) => { f("name", F::S(x.name.as_bytes())); f("name_l", F::Loc(x.name_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::MatchWithLvasgn(x) => { f("re", F::N(&x.re)); f("value", F::N(&x.value)); f("operator_l", F::Loc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Mlhs(x) => { f("items", F::L(&x.items)); f("begin_l", F::MLoc(x.begin_l)); f("end_l", F::MLoc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Module(x) => { f("name", F::N(&x.name)); f("body", F::M(x.body.as_deref())); f("keyword_l", F::Loc(x.keyword_l)); f("end_l", F::Loc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Next(x) => { f("args", F::L(&x.args)); f("keyword_l", F::Loc(x.keyword_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Nil(x) => { f("expression_l", F::Loc(x.expression_l)); }
    Node::NthRef(x) => { f("name", F::S(x.name.as_bytes())); f("expression_l", F::Loc(x.expression_l)); }
    Node::Numblock(x) => { f("call", F::N(&x.call)); f("numargs", F::U(x.numargs)); f("body", F::N(&x.body)); f("begin_l", F::Loc(x.begin_l)); f("end_l", F::Loc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::OpAsgn(x) => { f("recv", F::N(&x.recv)); f("operator", F::S(x.operator.as_bytes())); f("value", F::N(&x.value)); f("operator_l", F::Loc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Optarg(x) => { f("name", F::S(x.name.as_bytes())); f("default", F::N(&x.default)); f("name_l", F::Loc(x.name_l)); f("operator_l", F::Loc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Or(x) => { f("lhs", F::N(&x.lhs)); f("rhs", F::N(&x.rhs)); f("operator_l", F::Loc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::OrAsgn(x) => { f("recv", F::N(&x.recv)); f("value", F::N(&x.value)); f("operator_l", F::Loc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Pair(x) => { f("key", F::N(&x.key)); f("value", F::N(&x.value)); f("operator_l", F::Loc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Pin(x) => { f("var", F::N(&x.var)); f("selector_l", F::Loc(x.selector_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Postexe(x) => { f("body", F::M(x.body.as_deref())); f("keyword_l", F::Loc(x.keyword_l)); f("begin_l", F::Loc(x.begin_l)); f("end_l", F::Loc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Preexe(x) => { f("body", F::M(x.body.as_deref())); f("keyword_l", F::Loc(x.keyword_l)); f("begin_l", F::Loc(x.begin_l)); f("end_l", F::Loc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Procarg0(x) => { f("args", F::L(&x.args)); f("begin_l", F::MLoc(x.begin_l)); f("end_l", F::MLoc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Rational(x) => { f("value", F::S(x.value.as_bytes())); f("operator_l", F::MLoc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Redo(x) => { f("expression_l", F::Loc(x.expression_l)); }
    Node::Regexp(x) => { f("parts", F::L(&x.parts)); f("options", F::M(x.options.as_deref())); f("begin_l", F::Loc(x.begin_l)); f("end_l", F::Loc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::RegOpt(x) => { f("options", F::MS(x.options.as_ref().map(|s| s.as_bytes()))); f("expression_l", F::Loc(x.expression_l)); }
    Node::Rescue(x) => { f("body", F::M(x.body.as_deref())); f("rescue_bodies", F::L(&x.rescue_bodies)); f("else_", F::M(x.else_.as_deref())); f("else_l", F::MLoc(x.else_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::RescueBody(x) => { f("exc_list", F::M(x.exc_list.as_deref())); f("exc_var", F::M(x.exc_var.as_deref())); f("body", F::M(x.body.as_deref())); f("keyword_l", F::Loc(x.keyword_l)); f("assoc_l", F::MLoc(x.assoc_l)); f("begin_l", F::MLoc(x.begin_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Restarg(x) => { f("name", F::MS(x.name.as_ref().map(|s| s.as_bytes()))); f("operator_l", F::Loc(x.operator_l)); f("name_l", F::MLoc(x.name_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Retry(x) => { f("expression_l", F::Loc(x.expression_l)); }
    Node::Return(x) => { f("args", F::L(&x.args)); f("keyword_l", F::Loc(x.keyword_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::SClass(x) => { f("expr", F::N(&x.expr)); f("body", F::M(x.body.as_deref())); f("keyword_l", F::Loc(x.keyword_l)); f("operator_l", F::Loc(x.operator_l)); f("end_l", F::Loc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Self_(x) => { f("expression_l", F::Loc(x.expression_l)); }
    Node::Send(x) => { f("recv", F::M(x.recv.as_deref())); f("method_name", F::S(x.method_name.as_bytes())); f("args", F::L(&x.args)); f("dot_l", F::MLoc(x.dot_l)); f("selector_l", F::MLoc(x.selector_l)); f("begin_l", F::MLoc(x.begin_l)); f("end_l", F::MLoc(x.end_l)); f("operator_l", F::MLoc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Shadowarg(x) => { f("name", F::S(x.name.as_bytes())); f("expression_l", F::Loc(x.expression_l)); }
    Node::Splat(x) => { f("value", F::M(x.value.as_deref())); f("operator_l", F::Loc(x.operator_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Str(x) => { f("value", F::S(&x.value.raw)); f("begin_l", F::MLoc(x.begin_l)); f("end_l", F::MLoc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Super(x) => { f("args", F::L(&x.args)); f("keyword_l", F::Loc(x.keyword_l)); f("begin_l", F::MLoc(x.begin_l)); f("end_l", F::MLoc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Sym(x) => { f("name", F::S(&x.name.raw)); f("begin_l", F::MLoc(x.begin_l)); f("end_l", F::MLoc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::True(x) => { f("expression_l", F::Loc(x.expression_l)); }
    Node::Undef(x) => { f("names", F::L(&x.names)); f("keyword_l", F::Loc(x.keyword_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::UnlessGuard(x) => { f("cond", F::N(&x.cond)); f("keyword_l", F::Loc(x.keyword_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Until(x) => { f("cond", F::N(&x.cond)); f("body", F::M(x.body.as_deref())); f("keyword_l", F::Loc(x.keyword_l)); f("begin_l", F::MLoc(x.begin_l)); f("end_l", F::MLoc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::UntilPost(x) => { f("cond", F::N(&x.cond)); f("body", F::N(&x.body)); f("keyword_l", F::Loc(x.keyword_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::When(x) => { f("patterns", F::L(&x.patterns)); f("body", F::M(x.body.as_deref())); f("keyword_l", F::Loc(x.keyword_l)); f("begin_l", F::Loc(x.begin_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::While(x) => { f("cond", F::N(&x.cond)); f("body", F::M(x.body.as_deref())); f("keyword_l", F::Loc(x.keyword_l)); f("begin_l", F::MLoc(x.begin_l)); f("end_l", F::MLoc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::WhilePost(x) => { f("cond", F::N(&x.cond)); f("body", F::N(&x.body)); f("keyword_l", F::Loc(x.keyword_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::XHeredoc(x) => { f("parts", F::L(&x.parts)); f("heredoc_body_l", F::Loc(x.heredoc_body_l)); f("heredoc_end_l", F::Loc(x.heredoc_end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Xstr(x) => { f("parts", F::L(&x.parts)); f("begin_l", F::Loc(x.begin_l)); f("end_l", F::Loc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::Yield(x) => { f("args", F::L(&x.args)); f("keyword_l", F::Loc(x.keyword_l)); f("begin_l", F::MLoc(x.begin_l)); f("end_l", F::MLoc(x.end_l)); f("expression_l", F::Loc(x.expression_l)); }
    Node::ZSuper(x) => { f("expression_l", F::Loc(x.expression_l)); }
} }
