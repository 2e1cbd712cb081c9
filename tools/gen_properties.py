#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=("Parser::do_parse",), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))

prop("C01", "Parsing is total: every byte string yields a result, never a panic or hang",
 "For every byte string and every parser option, parsing terminates and returns a result; it never panics, overflows an integer, indexes out of range, aborts or loops forever. The same holds for everything a caller then does with the result: rendering each diagnostic, asking for the source, line and column of any location, and inspecting the tree.",
 ["inputs", "configurations"], "all byte strings (also invalid UTF-8, NUL, truncated constructs), record_tokens on and off",
 "The tests parse a few dozen well-formed snippets; a panic needs one particular broken or truncated byte sequence in one lexer/parser state.",
 ["src/lexer", "src/parser/parse.y", "src/builder.rs", "src/source", "src/error/diagnostic.rs"],
 [("byte access through MaybeByte / Option", "src/source/buffer.rs"), ("bison error recovery, yyerror paths", "src/parser/parse.y"), ("Result-returning builder methods", "src/builder.rs")],
 ["Parser::do_parse", "Diagnostic::render", "LocExt::source", "Node::inspect"])

prop("C02", "Every reported location is a valid range of the parsed input",
 "Every location in a parse result - of tokens, of AST nodes (all location fields), of comments, magic comments and diagnostics - satisfies begin <= end <= length of the returned input, so that its source text can always be taken. Locations refer to the returned (decoded) input.",
 ["inputs"], "all byte strings, error-free or not",
 "The tests check a handful of locations of well-formed snippets; a location goes wrong at end of input, after error recovery, next to heredocs or CRLF.",
 ["src/lexer/main.rs", "src/builder.rs", "src/source/buffer.rs", "src/parser/parse.y", "src/lexer/parse_heredoc.rs"],
 [("token begin/end from ptok/pcur", "src/lexer/main.rs"), ("expression locations joined from children and tokens", "src/builder.rs")],
 ["ParserResult.tokens/ast/diagnostics/comments/magic_comments"])

prop("C03", "AST locations nest and each location field covers the text it stands for",
 "In the AST of an error-free program every node's expression range contains the ranges of all its descendants (a heredoc body apart), every operator, keyword, delimiter, name or dot location lies inside its node's expression and covers exactly the source text that it denotes (keyword_l of `while` covers `while`, begin_l of `[1]` covers `[`, name_l of a variable covers its name), and the expression of a construct starts at its first and ends at its last character. Siblings are ordered by position.",
 ["inputs", "programs"], "all error-free programs; every node kind and every optional location field",
 "The tests pin locations of one sample per node kind; the range of a node depends on which optional parts are present and on the layout around it.",
 ["src/builder.rs", "src/parser/parse.y"],
 [("join_exprs / collection_map / delimited_string_map and friends", "src/builder.rs"), ("which tokens each grammar action passes to the builder", "src/parser/parse.y")],
 ["ParserResult.ast"])

prop("C04", "Recorded tokens are ordered, disjoint and together account for the source",
 "With token recording on, the tokens of an error-free program come in source order (a heredoc's body apart) without overlapping, the value of each token that has no escapes is exactly the source text at its location, and what lies between two tokens is only whitespace, comments, line continuations, heredoc bodies or string-separator blanks. The stream ends with exactly one end-of-input token.",
 ["inputs"], "all error-free programs",
 "Token tests compare sample streams; a lost, duplicated or shifted byte depends on the lexer state and on neighbouring characters.",
 ["src/lexer", "src/token.rs", "src/source/buffer.rs", "src/parser/parse.y"],
 [("token_flush / loc bookkeeping", "src/lexer/main.rs"), ("token recording", "src/parser/parse.y")],
 ["ParserResult.tokens"])

prop("C05", "String, symbol and character literals decode to the bytes Ruby specifies",
 "The value of a quoted string, symbol or `?x` character literal is the byte sequence Ruby defines for it: in interpolating literals every escape (octal, \\xHH, \\uXXXX, \\u{...}, control and meta combinations, named escapes, escaped newline, any other escaped character) decodes as documented and malformed escapes are reported as errors; in single-quoted literals only the backslash and the delimiter are unescaped; every other byte, including non-UTF-8 bytes, is copied unchanged.",
 ["inputs"], "all literal bodies (within length bounds), all escape letters and digits",
 "Tests decode a few sample escapes; correctness needs all byte values after a backslash, all digit counts and the combinations of \\M-, \\C- and \\c.",
 ["src/lexer/parse_string.rs", "src/lexer/parse_qmark.rs", "src/builder.rs"],
 [("read_escape / tokadd_utf8 / tokadd_string", "src/lexer/parse_string.rs"), ("string node construction", "src/builder.rs")],
 ["ParserResult.ast (Str, Sym, Dstr, Dsym values)"])

prop("C06", "Numeric literals are recognised, typed and delimited exactly as in Ruby",
 "A numeric literal is accepted exactly when Ruby accepts it (decimal, 0x, 0b, 0o/0, 0d, underscores only between digits, fraction, exponent, `r` and `i` suffixes) and becomes an integer, float, rational or complex node covering the whole literal, whose value is the literal as spelled; every malformed literal gets an error diagnostic. A leading minus belongs to the literal, except that `-2 ** 2` negates the power.",
 ["inputs"], "all literal spellings within length bounds",
 "Tests list some literals; the accepted language depends on combinations of prefix, underscore, fraction, exponent and suffix positions.",
 ["src/lexer/parse_numeric.rs", "src/lexer/main.rs", "src/builder.rs"],
 [("parse_numeric state machine", "src/lexer/parse_numeric.rs"), ("negate / numeric builders", "src/builder.rs")],
 ["ParserResult.ast", "ParserResult.diagnostics"])

prop("C07", "An identifier is a local variable exactly where Ruby's scoping rules say so",
 "A bare lower-case identifier that is read parses as a local variable exactly if it has been assigned, bound as a parameter, pattern variable, rescue variable or for-loop variable earlier in source order in a scope visible from there (or was declared by the caller beforehand), and as a method call otherwise. def, class, module and sclass bodies see nothing of the surrounding scope; block, lambda, for and string-interpolation bodies see the outer variables, and what blocks and lambdas declare is gone after them.",
 ["programs", "inputs", "histories"], "all nestings of scope constructs and all placements of declarations and uses within bounds, all names",
 "Tests check isolated examples; the rule quantifies over declaration kind, scope nesting, and order of declaration and use.",
 ["src/static_environment.rs", "src/parser/parse.y", "src/builder.rs", "src/lexer/parse_ident.rs"],
 [("extend_static / extend_dynamic / unextend in grammar actions", "src/parser/parse.y"), ("declare in builder assignable/args/patterns", "src/builder.rs")],
 ["ParserResult.ast (Lvar vs Send)"])

prop("C08", "Operator precedence and associativity follow Ruby's table",
 "An expression with several operators parses into the tree that Ruby's operator table prescribes (for unary, binary, ternary, range, assignment, defined?, not/and/or and modifier operators), each node carrying the operator that was written and operands in source order; combinations of non-associative operators are rejected with an error.",
 ["programs"], "all pairs and triples of operators, all operand positions",
 "Tests exercise a few combinations; the table has hundreds of pairs.",
 ["src/parser/parse.y", "src/lexer/main.rs", "src/builder.rs"],
 [("%left/%right/%nonassoc declarations and grammar rules", "src/parser/parse.y"), ("operator tokens and lex states", "src/lexer/main.rs")],
 ["ParserResult.ast"])

prop("C09", "Heredocs end at their terminator and yield exactly their (dedented) body",
 "The value of a heredoc is exactly the lines between the line after its introducer and the first line that consists of its identifier (optionally indented for <<- and <<~), with escapes and interpolation processed unless the identifier is single-quoted; for <<~ the common leading whitespace of the non-blank lines is removed, tabs counting to the next multiple of eight. The rest of the introducing line, several heredocs on a line and the lines after the terminator parse as if the body were not there; an unterminated heredoc is an error.",
 ["inputs"], "all bodies, indentations and identifiers within bounds",
 "Tests sample a few bodies; dedentation and terminator detection depend on every combination of blanks, tabs, blank lines, escapes, CRLF and identifier prefixes.",
 ["src/lexer/parse_heredoc.rs", "src/builder.rs", "src/source/buffer.rs"],
 [("heredoc_identifier / here_document / update_heredoc_indent", "src/lexer/parse_heredoc.rs"), ("heredoc_dedent / dedent_string", "src/builder.rs"), ("is_whole_match", "src/source/buffer.rs")],
 ["ParserResult.ast"])

prop("C10", "Comments and magic comments are all reported, in place, and nothing else is",
 "Every comment of an error-free program - from `#` to the end of its line, and every =begin/=end block - is reported exactly once, in order, with its location (the newline that ends it included), and nothing that is not a comment (a # inside a string, regexp or heredoc, text after __END__) is. A magic comment (encoding/coding, frozen_string_literal, warn_indent, shareable_constant_value, `-` for `_`, plain or in -*- markers) is reported with its kind, the location of its key and the location of its value.",
 ["inputs"], "all comment texts, spacings and positions within bounds",
 "Tests list some comments; what counts depends on position, spacing, quoting and marker layout.",
 ["src/lexer/main.rs", "src/lexer/parse_magic_comment.rs", "src/source/comment.rs", "src/source/magic_comment.rs"],
 [("comment branch of the lexer, =begin handling", "src/lexer/main.rs"), ("magic_comment", "src/lexer/parse_magic_comment.rs")],
 ["ParserResult.comments", "ParserResult.magic_comments"])

prop("C11", "Declared encodings reach the decoder; all other sources stay unchanged",
 "If the first line (or the second after a shebang) carries an encoding comment, an encoding other than UTF-8, ASCII-8BIT or BINARY (in any letter case) causes the caller's decoder to be called exactly once with that encoding's name and the whole source, and the program that is parsed and the returned input are what it returns; a decoder error or a missing decoder yields an error diagnostic instead of an AST. In all other cases the decoder is never called and the returned input is the given bytes, unchanged.",
 ["inputs", "configurations"], "all encoding names and comment layouts within bounds; decoder present, absent, failing",
 "Tests try two encodings; the rule depends on name, case, layout, and the line the comment is on.",
 ["src/source/decoder.rs", "src/source/input.rs", "src/lexer/parse_magic_comment.rs", "src/source/buffer.rs"],
 [("set_encoding / decode_input", "src/source/input.rs, src/source/decoder.rs"), ("comment_at_top", "src/lexer/parse_magic_comment.rs")],
 ["ParserResult.input", "Decoder callback", "ParserResult.diagnostics"])

prop("C12", "Line/column mapping and diagnostic rendering agree with the source bytes",
 "For every input and every offset in it (end included) the reported line is the number of newlines before the offset and the column the distance from the start of that line; offsets past the end give none. Expanding a location to its line gives exactly the line's bytes without its newline, and a rendered diagnostic shows the buffer name, the 1-based line, the column, the severity, the message, that line, and a marker under the first column that is as long as the location.",
 ["inputs"], "all inputs and all offsets/locations within bounds",
 "Tests check one offset each; edge cases are empty lines, missing final newline, offsets at newline or end of input.",
 ["src/source/decoded_input.rs", "src/source/source_line.rs", "src/loc_ext.rs", "src/error/diagnostic.rs"],
 [("update_bytes / line_col_for_pos", "src/source/decoded_input.rs"), ("expand_to_line", "src/loc_ext.rs"), ("render", "src/error/diagnostic.rs")],
 ["DecodedInput::line_col_for_pos", "LocExt::expand_to_line", "Diagnostic::render"])

prop("C13", "Programs that break Ruby's static rules are rejected, and only those",
 "Each static rule of the language is enforced wherever it applies and nowhere else: duplicate parameter, pattern-variable and pattern-key names, assignment to constants in methods, to keywords, to numbered parameters or back-references, class/module definitions in methods, invalid parameter names and orders, setters as endless methods, numbered parameters mixed with ordinary or nested ones, `...` and anonymous block arguments without a declaration, return in a class body, BEGIN inside of another construct, a block argument together with a block, void-value expressions used as values, singleton methods on literals, invalid symbols, ivar/cvar/gvar names, and circular argument references. A violation yields an error-level diagnostic; a program that respects the rule yields none.",
 ["programs", "inputs"], "all names and placements within bounds",
 "Tests give one violating example per rule; rules quantify over all pairs of names, parameter kinds and nestings.",
 ["src/builder.rs", "src/parser/parse.y", "src/current_arg_stack.rs", "src/max_numparam_stack.rs", "src/variables_stack.rs", "src/context.rs", "src/lexer/parse_atmark.rs", "src/lexer/parse_gvar.rs"],
 [("check_duplicate_args, assignable, check_*", "src/builder.rs"), ("context/numparam stacks", "src/context.rs, src/max_numparam_stack.rs")],
 ["ParserResult.diagnostics"])

prop("C14", "Options are orthogonal and parsing is deterministic",
 "Parsing the same bytes twice gives identical results. Turning token recording off changes nothing but empties the token list, the buffer name appears only as the input's name and in rendered diagnostics, a decoder that is not needed changes nothing, and the parser and the parser with state validation agree with each other.",
 ["inputs", "configurations"], "all inputs within bounds, all option combinations",
 "Tests run with one set of options; an option may leak only in particular lexer states.",
 ["src/parser/parse.y", "src/parser_options.rs", "src/parser_result.rs"],
 [("record_tokens in next_token", "src/parser/parse.y"), ("no global state", "src/parser/parse.y")],
 ["Parser::do_parse", "Parser::do_parse_with_state_validation"])

prop("C15", "Layout that Ruby ignores does not change the program that is parsed",
 "Adding or varying insignificant layout - blanks and tabs between tokens, leading or trailing blank lines and comments, CRLF instead of LF line ends, a UTF-8 byte-order mark, a shebang line, a missing final newline, a semicolon for a newline, a line break after an operator or comma or before a leading dot, a backslash-newline - leaves the shape of the tree (kinds, names, values, order) unchanged and reports no new errors.",
 ["programs", "inputs"], "all supported insertion points in representative programs, all layout bytes",
 "Tests use one layout per snippet; lexer state makes each insertion point different.",
 ["src/lexer/main.rs", "src/source/buffer.rs", "src/lexer/parse_heredoc.rs"],
 [("space/newline handling in yylex", "src/lexer/main.rs"), ("parser_cr, BOM and shebang handling", "src/source/buffer.rs")],
 ["ParserResult.ast", "ParserResult.diagnostics"])

prop("C16", "Nothing after __END__, NUL, ^D or ^Z affects the program",
 "Once a line consisting of exactly __END__ (optionally ending in CRLF, or at the end of the file) or a NUL, ^D or ^Z byte is reached outside of literals and comments, whatever follows - any bytes - changes neither the AST nor diagnostics, comments or tokens. Text that merely resembles the marker (indented, with other text on the line, inside a heredoc or =begin block) does not end the program.",
 ["inputs"], "all trailing bytes and near-miss markers within bounds",
 "Tests use one trailing text; the claim is about all suffixes and all near misses.",
 ["src/lexer/main.rs", "src/lexer/parse_ident.rs", "src/source/buffer.rs"],
 [("__END__ check and end-of-script bytes in yylex", "src/lexer/main.rs"), ("is_whole_match", "src/source/buffer.rs")],
 ["ParserResult"])

prop("C17", "Identifiers, constants, keywords and variables are classified by their spelling",
 "A word is treated as a keyword exactly if it is one of Ruby's reserved words in a position where keywords are recognised (not after a dot, after def, as a symbol or as a hash label); otherwise it is a constant if it begins with an upper-case letter and a local variable or method name if not, with an optional ? or ! suffix for methods; @, @@ and $ prefixed names are instance, class and global variables, $1.. and $&.. the regexp specials. The resulting node carries the name exactly as spelled, including non-ASCII letters.",
 ["inputs"], "all names within bounds, all positions",
 "Tests use sample names; classification depends on every character and on prefixes/extensions of reserved words.",
 ["src/lexer/parse_ident.rs", "src/reserved_words", "src/lexer/parse_atmark.rs", "src/lexer/parse_gvar.rs", "src/lex_state.rs"],
 [("reserved_word table", "src/reserved_words/mod.rs"), ("parse_ident state handling", "src/lexer/parse_ident.rs")],
 ["ParserResult.ast", "reserved_word"])

prop("C18", "Percent literals and word arrays contain exactly the elements written",
 "%q %Q %() %w %W %i %I %s %x and %r literals with any legal delimiter denote the same value as their ordinary form: bracket delimiters nest, a backslash protects the delimiter, word lists split at (unescaped) whitespace into one element per word, upper-case forms interpolate and process escapes and lower-case ones do not. Illegal delimiters and unterminated literals are errors.",
 ["inputs"], "all delimiters and bodies within bounds",
 "Tests use a few delimiters and bodies; splitting and nesting depend on every byte.",
 ["src/lexer/parse_percent.rs", "src/lexer/parse_string.rs", "src/builder.rs"],
 [("parse_percent", "src/lexer/parse_percent.rs"), ("tokadd_string with SExp/regexp/qwords flags", "src/lexer/parse_string.rs"), ("words_compose / symbols_compose", "src/builder.rs")],
 ["ParserResult.ast"])

prop("C19", "Regexp literals keep their source and report exactly the options written",
 "A regexp literal's body is kept as written (escapes are not decoded, only an escaped delimiter loses its backslash where Ruby says so), its options are the letters written after it, each once and sorted, unknown option letters are errors, interpolation splits the body into parts, and an ambiguous / is a regexp or a division according to the tokens and spaces around it.",
 ["inputs"], "all bodies, delimiters and option letters within bounds",
 "Tests use a few options and bodies.",
 ["src/lexer/parse_string.rs", "src/builder.rs", "src/lexer/main.rs"],
 [("parse_regx_options / tokadd_string regexp branch", "src/lexer/parse_string.rs"), ("regexp_options / regexp_compose", "src/builder.rs")],
 ["ParserResult.ast (Regexp, RegOpt)"])

prop("C20", "Each construct yields its documented node with every part in its place",
 "Every construct of the language - calls with all argument kinds, blocks and lambdas with all parameter kinds, method definitions, conditionals, loops, case/when, pattern matching, exception handling, class/module definitions, assignments of all targets and operators, literals and collections - produces the documented node kind with each sub-part (receiver, name, arguments, condition, branches, body, targets, values) in its documented field, none lost, duplicated, exchanged or invented, for any names and literals used in it.",
 ["programs", "inputs"], "all construct forms of the grammar with arbitrary names and simple operands, combined pairwise by nesting",
 "The bundled tests cover a fraction of the grammar with fixed names (the generated suites are not part of this repository).",
 ["src/builder.rs", "src/parser/parse.y", "src/parse_value.rs"],
 [("builder methods", "src/builder.rs"), ("grammar actions", "src/parser/parse.y")],
 ["ParserResult.ast"])

prop("C21", "Parser state is balanced after every error-free parse",
 "After an error-free parse all nesting state of the parser is back to its initial value (the parser's own state validation succeeds), so that a construct never influences how the code after it is parsed: parsing `A` newline `B` gives the statements of `A` followed by those of `B`, each as when parsed alone (apart from declared variables).",
 ["programs", "histories"], "all error-free programs; all ordered pairs of representative statements",
 "State validation is only run on the tests' snippets, and leaks show only in particular sequences of constructs.",
 ["src/parser/parse.y", "src/context.rs", "src/stack_state.rs", "src/current_arg_stack.rs", "src/max_numparam_stack.rs", "src/variables_stack.rs", "src/static_environment.rs"],
 [("push/pop pairs in grammar mid-rule actions", "src/parser/parse.y"), ("do_parse_with_state_validation", "src/parser/parse.y")],
 ["Parser::do_parse_with_state_validation", "ParserResult.ast"])

prop("C22", "A missing AST always comes with an error, and broken syntax is always reported",
 "If a program cannot be parsed - a bracket, keyword, literal or operand is missing, superfluous or mismatched - the result contains at least one error-level diagnostic; if the result has no error-level diagnostic, the AST is present unless the program consists only of blanks and comments. Warnings never suppress the AST.",
 ["inputs"], "all inputs within bounds; all single-token damage to well-formed programs",
 "Tests list some broken programs; the claim is about all of them.",
 ["src/parser/parse.y", "src/lexer", "src/error/diagnostic.rs"],
 [("yyerror / warn paths", "src/parser/parse.y"), ("yyerror0/1 in lexer", "src/lexer/main.rs")],
 ["ParserResult.ast", "ParserResult.diagnostics"])

prop("C23", "The public scope stack behaves as a stack of variable sets",
 "For every sequence of declare, enter-closed-scope, enter-open-scope and leave operations on the caller-visible static environment, a name is reported as declared exactly if it was declared in the current scope or, across open scopes only, in an enclosing one before that scope was entered; leaving restores exactly the set of names before entering. Variables a caller declares before parsing are visible at top level and in blocks, and not in def/class/module bodies.",
 ["histories"], "all operation sequences within bounds, all names from a small alphabet",
 "Four unit tests check one short history each.",
 ["src/static_environment.rs", "src/parser/parse.y"],
 [("BTreeSet stack", "src/static_environment.rs")],
 ["StaticEnvironment", "Parser.static_env"])

prop("C24", "With feature `onig`, regexps are rejected exactly when Onigmo rejects them",
 "With the optional onig feature, a static regexp literal gets an error diagnostic exactly if the Onigmo library rejects its source, and its named groups are those Onigmo reports.",
 ["inputs"], "all regexp sources", "Only a couple of sample regexps are tested.",
 ["src/builder.rs"], [("static_regexp", "src/builder.rs")])

prop("C25", "Parsing time and memory are linear in the size of the source",
 "Parsing takes time and memory proportional to the length of the source, for any source.",
 ["inputs"], "all sources of any size", "Benchmarks run on one corpus.",
 ["src/lexer", "src/parser/parse.y", "src/source"], [("single pass lexer + LALR parser", "src/parser/parse.y")])

prop("C26", "Warnings are given exactly where Ruby gives them",
 "For every program, the warning-level diagnostics are exactly those the rules of Ruby call for: an ambiguous prefix operator or first argument after a name followed by a blank, a comparison after a comparison, a duplicated literal key in a hash (once per repeated key), a back-reference number too big to be valid, `...` or `if`/`elsif` at the end of a line, a carriage return inside a line, a character literal that looks like a ternary operator, END inside a method. Each warning names the construct (operator, key, character) it is about, covers its source text and comes once; where the rule does not apply (inside parentheses, with a blank on both sides, for different keys) there is none.",
 ["inputs"], "all programs within bounds, all layouts around the construct",
 "Each warning has at most one test, and none checks that there is no warning in neighbouring layouts.",
 ["src/lexer", "src/builder.rs", "src/parser/parse.y"],
 [("ambiguous_operator, warn_balanced", "src/lexer"), ("duplicate hash keys", "src/builder.rs"), ("warn(...) in actions", "src/parser/parse.y")],
 ["ParserResult.diagnostics", "DiagnosticMessage::render"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 90, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
