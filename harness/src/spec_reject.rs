//! generated by tools/gen_spec.py from spec/reject.txt
pub static REJECT: &[(&[u8], &str)] = &[
    (b"v\xffa { |x\xffa; y\xffa,| }", "vα { |xα; yα,| }"),
    (b"v\xffa { |; y\xffa,| }", "vα { |; yα,| }"),
    (b"v\xffa { |;| }", "vα { |;| }"),
    (b"v\xffa { |x\xffa;| }", "vα { |xα;| }"),
    (b"v\xffa { |x\xffa; y\xffa z\xffa| }", "vα { |xα; yα zα| }"),
    (b"v\xffa { |,| }", "vα { |,| }"),
    (b"v\xffa { |, x\xffa| }", "vα { |, xα| }"),
    (b"v\xffa { |x\xffa,, y\xffa| }", "vα { |xα,, yα| }"),
    (b"v\xffa { |x\xffa, y\xffa }", "vα { |xα, yα }"),
    (b"v\xffa { x\xffa| }", "vα { xα| }"),
    (b"v\xffa { |x\xffa y\xffa| }", "vα { |xα yα| }"),
    (b"v\xffa { |*x\xffa,| }", "vα { |*xα,| }"),
    (b"v\xffa { |x\xffa = \xffd,| }", "vα { |xα = δ,| }"),
    (b"v\xffa { |x\xffa:,| }", "vα { |xα:,| }"),
    (b"v\xffa { |x\xffa: \xffd,| }", "vα { |xα: δ,| }"),
    (b"v\xffa { |**x\xffa,| }", "vα { |**xα,| }"),
    (b"v\xffa { |&x\xffa,| }", "vα { |&xα,| }"),
    (b"v\xffa { |&x\xffa, y\xffa| }", "vα { |&xα, yα| }"),
    (b"v\xffa { |*x\xffa, *y\xffa| }", "vα { |*xα, *yα| }"),
    (b"v\xffa { |**x\xffa, *y\xffa| }", "vα { |**xα, *yα| }"),
    (b"v\xffa { |**x\xffa, y\xffa| }", "vα { |**xα, yα| }"),
    (b"v\xffa { |x\xffa: \xffd, y\xffa| }", "vα { |xα: δ, yα| }"),
    (b"v\xffa { |x\xffa:, *y\xffa| }", "vα { |xα:, *yα| }"),
    (b"v\xffa { |x\xffa = | }", "vα { |xα = | }"),
    (b"v\xffa { |(x\xffa| }", "vα { |(xα| }"),
    (b"v\xffa { |x\xffa)| }", "vα { |xα)| }"),
    (b"v\xffa { |()| }", "vα { |()| }"),
    (b"v\xffa { |(,x\xffa)| }", "vα { |(,xα)| }"),
    (b"v\xffa { |(x\xffa,,y\xffa)| }", "vα { |(xα,,yα)| }"),
    (b"v\xffa { |(x\xffa = \xffd)| }", "vα { |(xα = δ)| }"),
    (b"v\xffa { |(x\xffa:)| }", "vα { |(xα:)| }"),
    (b"v\xffa { |(&x\xffa)| }", "vα { |(&xα)| }"),
    (b"v\xffa { |(**x\xffa)| }", "vα { |(**xα)| }"),
    (b"v\xffa { |(*x\xffa, *y\xffa)| }", "vα { |(*xα, *yα)| }"),
    (b"v\xffa { |\xffd| }", "vα { |δ| }"),
    (b"v\xffa { |\x22x\xffa\x22| }", "vα { |\"xα\"| }"),
    (b"v\xffa { |x\xffa.y\xffa| }", "vα { |xα.yα| }"),
    (b"v\xffa { |x\xffa[\xffd]| }", "vα { |xα[δ]| }"),
    (b"v\xffa { |x\xffa == \xffd| }", "vα { |xα == δ| }"),
    (b"v\xffa { |x\xffa?| }", "vα { |xα?| }"),
    (b"v\xffa { |x\xffa!| }", "vα { |xα!| }"),
    (b"v\xffa { |**nil, x\xffa| }", "vα { |**nil, xα| }"),
    (b"v\xffa { |**nil,| }", "vα { |**nil,| }"),
    (b"v\xffa { |**nil, **x\xffa| }", "vα { |**nil, **xα| }"),
    (b"v\xffa { |**nil = \xffd| }", "vα { |**nil = δ| }"),
    (b"v\xffa { |...| }", "vα { |...| }"),
    (b"v\xffa { |x\xffa, ...| }", "vα { |xα, ...| }"),
    (b"v\xffa { |*x\xffa = \xffd| }", "vα { |*xα = δ| }"),
    (b"v\xffa { |&x\xffa = \xffd| }", "vα { |&xα = δ| }"),
    (b"v\xffa { |**x\xffa = \xffd| }", "vα { |**xα = δ| }"),
    (b"v\xffa { |* = \xffd| }", "vα { |* = δ| }"),
    (b"v\xffa { |x\xffa |", "vα { |xα |"),
    (b"v\xffa { |x\xffa| y\xffa", "vα { |xα| yα"),
    (b"v\xffa do |x\xffa| y\xffa", "vα do |xα| yα"),
    (b"v\xffa do |x\xffa; end", "vα do |xα; end"),
    (b"v\xffa do x\xffa }", "vα do xα }"),
    (b"v\xffa { x\xffa end", "vα { xα end"),
    (b"v\xffa { { }", "vα { { }"),
    (b"v\xffa } ", "vα } "),
    (b"v\xffa end", "vα end"),
    (b"-> (x\xffa { }", "-> (xα { }"),
    (b"-> x\xffa) { }", "-> xα) { }"),
    (b"-> (x\xffa,) { }", "-> (xα,) { }"),
    (b"-> x\xffa, { }", "-> xα, { }"),
    (b"-> (,x\xffa) { }", "-> (,xα) { }"),
    (b"-> (x\xffa,,y\xffa) { }", "-> (xα,,yα) { }"),
    (b"-> (x\xffa; y\xffa,) { }", "-> (xα; yα,) { }"),
    (b"-> (x\xffa;) { }", "-> (xα;) { }"),
    (b"-> (x\xffa y\xffa) { }", "-> (xα yα) { }"),
    (b"-> |x\xffa| { }", "-> |xα| { }"),
    (b"-> { |x\xffa| x\xfe\x00 }", "-> { |xα| xα }"),
    (b"-> { x\xffa", "-> { xα"),
    (b"-> do x\xffa", "-> do xα"),
    (b"-> do x\xffa }", "-> do xα }"),
    (b"-> { x\xffa end", "-> { xα end"),
    (b"-> x\xffa", "-> xα"),
    (b"->", "->"),
    (b"-> (x\xffa)", "-> (xα)"),
    (b"-> (...) { }", "-> (...) { }"),
    (b"-> (*x\xffa, *y\xffa) { }", "-> (*xα, *yα) { }"),
    (b"-> (x\xffa = ) { }", "-> (xα = ) { }"),
    (b"-> (&x\xffa, y\xffa) { }", "-> (&xα, yα) { }"),
    (b"-> ((x\xffa)", "-> ((xα)"),
    (b"lambda { |x\xffa }", "lambda { |xα }"),
    (b"def v\xffa(x\xffa; end", "def vα(xα; end"),
    (b"def v\xffa x\xffa); end", "def vα xα); end"),
    (b"def v\xffa(x\xffa,); end", "def vα(xα,); end"),
    (b"def v\xffa(,x\xffa); end", "def vα(,xα); end"),
    (b"def v\xffa(x\xffa,,y\xffa); end", "def vα(xα,,yα); end"),
    (b"def v\xffa(x\xffa y\xffa); end", "def vα(xα yα); end"),
    (b"def v\xffa(*x\xffa,); end", "def vα(*xα,); end"),
    (b"def v\xffa(x\xffa = \xffd,); end", "def vα(xα = δ,); end"),
    (b"def v\xffa(x\xffa:,); end", "def vα(xα:,); end"),
    (b"def v\xffa(&x\xffa,); end", "def vα(&xα,); end"),
    (b"def v\xffa(&x\xffa, y\xffa); end", "def vα(&xα, yα); end"),
    (b"def v\xffa(*x\xffa, *y\xffa); end", "def vα(*xα, *yα); end"),
    (b"def v\xffa(**x\xffa, *y\xffa); end", "def vα(**xα, *yα); end"),
    (b"def v\xffa(**x\xffa, y\xffa); end", "def vα(**xα, yα); end"),
    (b"def v\xffa(x\xffa: \xffd, y\xffa); end", "def vα(xα: δ, yα); end"),
    (b"def v\xffa(x\xffa: \xffd, *y\xffa); end", "def vα(xα: δ, *yα); end"),
    (b"def v\xffa(x\xffa = ); end", "def vα(xα = ); end"),
    (b"def v\xffa(x\xffa == \xffd); end", "def vα(xα == δ); end"),
    (b"def v\xffa(**nil, **x\xffa); end", "def vα(**nil, **xα); end"),
    (b"def v\xffa(..., x\xffa); end", "def vα(..., xα); end"),
    (b"def v\xffa(*x\xffa, ...); end", "def vα(*xα, ...); end"),
    (b"def v\xffa(**x\xffa, ...); end", "def vα(**xα, ...); end"),
    (b"def v\xffa(&x\xffa, ...); end", "def vα(&xα, ...); end"),
    (b"def v\xffa(x\xffa; y\xffa); end", "def vα(xα; yα); end"),
    (b"def v\xffa(\xffd); end", "def vα(δ); end"),
    (b"def v\xffa(\x22x\xffa\x22); end", "def vα(\"xα\"); end"),
    (b"def v\xffa(x\xffa.y\xffa); end", "def vα(xα.yα); end"),
    (b"def v\xffa(x\xffa[\xffd]); end", "def vα(xα[δ]); end"),
    (b"def v\xffa((x\xffa); end", "def vα((xα); end"),
    (b"def v\xffa((x\xffa = \xffd)); end", "def vα((xα = δ)); end"),
    (b"def v\xffa(()); end", "def vα(()); end"),
    (b"def v\xffa(*); v\xfe\x00", "def vα(*); vα"),
    (b"def v\xffa x\xffa, ; end", "def vα xα, ; end"),
    (b"def v\xffa x\xffa y\xffa; end", "def vα xα yα; end"),
    (b"def v\xffa", "def vα"),
    (b"def v\xffa; x\xffa", "def vα; xα"),
    (b"def v\xffa; x\xffa; }", "def vα; xα; }"),
    (b"def", "def"),
    (b"def; end", "def; end"),
    (b"def \xffd; end", "def δ; end"),
    (b"def \x22v\xffa\x22; end", "def \"vα\"; end"),
    (b"def v\xffa.; end", "def vα.; end"),
    (b"def v\xffa.x\xffa.y\xffa; end", "def vα.xα.yα; end"),
    (b"def v\xffa..x\xffa; end", "def vα..xα; end"),
    (b"def (v\xffa).; end", "def (vα).; end"),
    (b"def (v\xffa.x\xffa; end", "def (vα.xα; end"),
    (b"def v\xffa).x\xffa; end", "def vα).xα; end"),
    (b"def @v\xffa; end", "def @vα; end"),
    (b"def @v\xffa.; end", "def @vα.; end"),
    (b"def $v\xffa; end", "def $vα; end"),
    (b"def v\xffa.\xffd; end", "def vα.δ; end"),
    (b"def v\xffa(x\xffa) y\xffa", "def vα(xα) yα"),
    (b"def v\xffa() = ", "def vα() = "),
    (b"def v\xffa = ", "def vα = "),
    (b"def v\xffa(x\xffa) =", "def vα(xα) ="),
    (b"def v\xffa x\xffa = y\xffa", "def vα xα = yα"),
    (b"def v\xffa(x\xffa) = y\xffa end", "def vα(xα) = yα end"),
    (b"def v\xffa(x\xffa = y\xffa", "def vα(xα = yα"),
    (b"def self; .x\xffa; end", "def self; .xα; end"),
    (b"def self.; end", "def self.; end"),
    (b"def []; ", "def []; "),
    (b"def v\xffa::; end", "def vα::; end"),
    (b"def v\xffa; rescue; rescue", "def vα; rescue; rescue"),
    (b"def v\xffa; ensure; rescue; end", "def vα; ensure; rescue; end"),
    (b"def v\xffa; else; rescue; end", "def vα; else; rescue; end"),
    (b"def v\xffa; ensure; ensure; end", "def vα; ensure; ensure; end"),
    (b"def v\xffa; ensure; else; end", "def vα; ensure; else; end"),
    (b"def v\xffa; else; x\xffa; end", "def vα; else; xα; end"),
    (b"def v\xffa; rescue; else; else; end", "def vα; rescue; else; else; end"),
    (b"begin", "begin"),
    (b"begin; v\xffa", "begin; vα"),
    (b"begin; v\xffa; }", "begin; vα; }"),
    (b"begin; else; end", "begin; else; end"),
    (b"begin; v\xffa; else; x\xffa; end", "begin; vα; else; xα; end"),
    (b"begin; ensure; rescue; end", "begin; ensure; rescue; end"),
    (b"begin; ensure; ensure; end", "begin; ensure; ensure; end"),
    (b"begin; ensure; else; end", "begin; ensure; else; end"),
    (b"begin; rescue; else; rescue; end", "begin; rescue; else; rescue; end"),
    (b"begin; rescue; ensure; else; end", "begin; rescue; ensure; else; end"),
    (b"begin; rescue => ; end", "begin; rescue => ; end"),
    (b"begin; rescue V\xffa =>; end", "begin; rescue Vα =>; end"),
    (b"begin; rescue V\xffa => \xffd; end", "begin; rescue Vα => δ; end"),
    (b"begin; rescue V\xffa => x\xffa y\xffa; end", "begin; rescue Vα => xα yα; end"),
    (b"begin; rescue V\xffa, ; end", "begin; rescue Vα, ; end"),
    (b"begin; rescue , V\xffa; end", "begin; rescue , Vα; end"),
    (b"begin; rescue V\xffa W\xffa; end", "begin; rescue Vα Wα; end"),
    (b"begin; rescue V\xffa => x\xffa, W\xffa; end", "begin; rescue Vα => xα, Wα; end"),
    (b"begin; rescue then then; end", "begin; rescue then then; end"),
    (b"begin; rescue *; end", "begin; rescue *; end"),
    (b"begin; v\xffa; end end", "begin; vα; end end"),
    (b"begin; v\xffa; end while", "begin; vα; end while"),
    (b"begin; v\xffa; end until", "begin; vα; end until"),
    (b"begin; v\xffa; end if", "begin; vα; end if"),
    (b"rescue", "rescue"),
    (b"rescue; end", "rescue; end"),
    (b"ensure; end", "ensure; end"),
    (b"else", "else"),
    (b"else; end", "else; end"),
    (b"elsif v\xffa; end", "elsif vα; end"),
    (b"when v\xffa; end", "when vα; end"),
    (b"in v\xffa; end", "in vα; end"),
    (b"then", "then"),
    (b"then v\xffa", "then vα"),
    (b"do; end", "do; end"),
    (b"do", "do"),
    (b"end", "end"),
    (b"v\xffa; end", "vα; end"),
    (b"}", "}"),
    (b")", ")"),
    (b"]", "]"),
    (b"v\xffa)", "vα)"),
    (b"v\xffa]", "vα]"),
    (b"v\xffa}", "vα}"),
    (b"(v\xffa", "(vα"),
    (b"[v\xffa", "[vα"),
    (b"{v\xffa: \xffd", "{vα: δ"),
    (b"(v\xffa]", "(vα]"),
    (b"(v\xffa}", "(vα}"),
    (b"[v\xffa)", "[vα)"),
    (b"[v\xffa}", "[vα}"),
    (b"{v\xffa: \xffd)", "{vα: δ)"),
    (b"{v\xffa: \xffd]", "{vα: δ]"),
    (b"v\xffa(x\xffa", "vα(xα"),
    (b"v\xffa(x\xffa]", "vα(xα]"),
    (b"v\xffa(x\xffa}", "vα(xα}"),
    (b"v\xffa[x\xffa", "vα[xα"),
    (b"v\xffa[x\xffa)", "vα[xα)"),
    (b"v\xffa[x\xffa}", "vα[xα}"),
    (b"(v\xffa; x\xffa", "(vα; xα"),
    (b"if", "if"),
    (b"if v\xffa", "if vα"),
    (b"if v\xffa; x\xffa", "if vα; xα"),
    (b"if v\xffa then", "if vα then"),
    (b"if v\xffa then x\xffa", "if vα then xα"),
    (b"if v\xffa then x\xffa else", "if vα then xα else"),
    (b"if v\xffa then x\xffa else y\xffa", "if vα then xα else yα"),
    (b"if v\xffa; else; else; end", "if vα; else; else; end"),
    (b"if v\xffa; else; elsif x\xffa; end", "if vα; else; elsif xα; end"),
    (b"if v\xffa; elsif; end", "if vα; elsif; end"),
    (b"if v\xffa; elsif x\xffa; ", "if vα; elsif xα; "),
    (b"if v\xffa x\xffa end", "if vα xα end"),
    (b"if v\xffa then then x\xffa end", "if vα then then xα end"),
    (b"if ; x\xffa; end", "if ; xα; end"),
    (b"if then x\xffa end", "if then xα end"),
    (b"if v\xffa; x\xffa; }", "if vα; xα; }"),
    (b"if v\xffa do x\xffa end", "if vα do xα end"),
    (b"if v\xffa; when x\xffa; end", "if vα; when xα; end"),
    (b"if v\xffa; rescue; end", "if vα; rescue; end"),
    (b"unless", "unless"),
    (b"unless v\xffa", "unless vα"),
    (b"unless v\xffa; x\xffa", "unless vα; xα"),
    (b"unless v\xffa; elsif x\xffa; end", "unless vα; elsif xα; end"),
    (b"unless v\xffa; else; else; end", "unless vα; else; else; end"),
    (b"unless then x\xffa end", "unless then xα end"),
    (b"unless v\xffa x\xffa end", "unless vα xα end"),
    (b"while", "while"),
    (b"while v\xffa", "while vα"),
    (b"while v\xffa do", "while vα do"),
    (b"while v\xffa do x\xffa", "while vα do xα"),
    (b"while v\xffa then x\xffa end", "while vα then xα end"),
    (b"while do x\xffa end", "while do xα end"),
    (b"while v\xffa; x\xffa; }", "while vα; xα; }"),
    (b"while v\xffa; else; end", "while vα; else; end"),
    (b"while v\xffa; rescue; end", "while vα; rescue; end"),
    (b"until", "until"),
    (b"until v\xffa", "until vα"),
    (b"until v\xffa do", "until vα do"),
    (b"until v\xffa then x\xffa end", "until vα then xα end"),
    (b"until do x\xffa end", "until do xα end"),
    (b"until v\xffa; ensure; end", "until vα; ensure; end"),
    (b"for", "for"),
    (b"for v\xffa", "for vα"),
    (b"for v\xffa in", "for vα in"),
    (b"for v\xffa in x\xffa", "for vα in xα"),
    (b"for v\xffa in x\xffa do", "for vα in xα do"),
    (b"for v\xffa in x\xffa; y\xffa", "for vα in xα; yα"),
    (b"for v\xffa x\xffa do end", "for vα xα do end"),
    (b"for in x\xffa do end", "for in xα do end"),
    (b"for \xffd in x\xffa do end", "for δ in xα do end"),
    (b"for v\xffa, in", "for vα, in"),
    (b"for v\xffa,, x\xffa in y\xffa do end", "for vα,, xα in yα do end"),
    (b"for , v\xffa in x\xffa do end", "for , vα in xα do end"),
    (b"for v\xffa in do end", "for vα in do end"),
    (b"for v\xffa = x\xffa do end", "for vα = xα do end"),
    (b"for v\xffa() in x\xffa do end", "for vα() in xα do end"),
    (b"for *v\xffa, *x\xffa in y\xffa; end", "for *vα, *xα in yα; end"),
    (b"for v\xffa of x\xffa do end", "for vα of xα do end"),
    (b"for v\xffa in x\xffa { }", "for vα in xα { }"),
    (b"case", "case"),
    (b"case v\xffa", "case vα"),
    (b"case v\xffa end", "case vα end"),
    (b"case v\xffa; end", "case vα; end"),
    (b"case; end", "case; end"),
    (b"case v\xffa; x\xffa; end", "case vα; xα; end"),
    (b"case v\xffa; else; end", "case vα; else; end"),
    (b"case v\xffa; when; end", "case vα; when; end"),
    (b"case v\xffa; when x\xffa", "case vα; when xα"),
    (b"case v\xffa; when x\xffa, ; end", "case vα; when xα, ; end"),
    (b"case v\xffa; when , x\xffa; end", "case vα; when , xα; end"),
    (b"case v\xffa; when x\xffa y\xffa; end", "case vα; when xα yα; end"),
    (b"case v\xffa; when x\xffa then", "case vα; when xα then"),
    (b"case v\xffa; when x\xffa; else; else; end", "case vα; when xα; else; else; end"),
    (b"case v\xffa; when x\xffa; else; when y\xffa; end", "case vα; when xα; else; when yα; end"),
    (b"case v\xffa; when x\xffa; in y\xffa; end", "case vα; when xα; in yα; end"),
    (b"case v\xffa; in x\xffa; when y\xffa; end", "case vα; in xα; when yα; end"),
    (b"case v\xffa; when x\xffa; elsif y\xffa; end", "case vα; when xα; elsif yα; end"),
    (b"case v\xffa; when x\xffa do; end", "case vα; when xα do; end"),
    (b"case v\xffa; when x\xffa; ensure; end", "case vα; when xα; ensure; end"),
    (b"case v\xffa; in; end", "case vα; in; end"),
    (b"case; in x\xffa; end", "case; in xα; end"),
    (b"case v\xffa; in x\xffa", "case vα; in xα"),
    (b"case v\xffa; in x\xffa then", "case vα; in xα then"),
    (b"case v\xffa; in x\xffa; else; else; end", "case vα; in xα; else; else; end"),
    (b"case v\xffa; in x\xffa; else; in y\xffa; end", "case vα; in xα; else; in yα; end"),
    (b"case v\xffa; in x\xffa do; end", "case vα; in xα do; end"),
    (b"case v\xffa; in x\xffa y\xffa; end", "case vα; in xα yα; end"),
    (b"case v\xffa; in x\xffa,, y\xffa; end", "case vα; in xα,, yα; end"),
    (b"case v\xffa; in , x\xffa; end", "case vα; in , xα; end"),
    (b"case v\xffa; in [x\xffa; end", "case vα; in [xα; end"),
    (b"case v\xffa; in x\xffa]; end", "case vα; in xα]; end"),
    (b"case v\xffa; in {x\xffa: ; end", "case vα; in {xα: ; end"),
    (b"case v\xffa; in {x\xffa}; end", "case vα; in {xα}; end"),
    (b"case v\xffa; in {x\xffa => y\xffa}; end", "case vα; in {xα => yα}; end"),
    (b"case v\xffa; in {\xffd: x\xffa}; end", "case vα; in {δ: xα}; end"),
    (b"case v\xffa; in {**x\xffa, y\xffa:}; end", "case vα; in {**xα, yα:}; end"),
    (b"case v\xffa; in {**nil, x\xffa:}; end", "case vα; in {**nil, xα:}; end"),
    (b"case v\xffa; in {x\xffa:, **nil, **y\xffa}; end", "case vα; in {xα:, **nil, **yα}; end"),
    (b"case v\xffa; in {x\xffa:, *y\xffa}; end", "case vα; in {xα:, *yα}; end"),
    (b"case v\xffa; in {*x\xffa}; end", "case vα; in {*xα}; end"),
    (b"case v\xffa; in {x\xffa: y\xffa:}; end", "case vα; in {xα: yα:}; end"),
    (b"case v\xffa; in [*x\xffa, *y\xffa]; end", "case vα; in [*xα, *yα]; end"),
    (b"case v\xffa; in [*, \xffd, *, \xffd]; end", "case vα; in [*, δ, *, δ]; end"),
    (b"case v\xffa; in [**x\xffa]; end", "case vα; in [**xα]; end"),
    (b"case v\xffa; in [x\xffa, **y\xffa]; end", "case vα; in [xα, **yα]; end"),
    (b"case v\xffa; in [&x\xffa]; end", "case vα; in [&xα]; end"),
    (b"case v\xffa; in x\xffa |; end", "case vα; in xα |; end"),
    (b"case v\xffa; in | x\xffa; end", "case vα; in | xα; end"),
    (b"case v\xffa; in \xffd || \xffd; end", "case vα; in δ || δ; end"),
    (b"case v\xffa; in \xffd & \xffd; end", "case vα; in δ & δ; end"),
    (b"case v\xffa; in x\xffa =>; end", "case vα; in xα =>; end"),
    (b"case v\xffa; in => x\xffa; end", "case vα; in => xα; end"),
    (b"case v\xffa; in \xffd => \xffd; end", "case vα; in δ => δ; end"),
    (b"case v\xffa; in \xffd => X\xffa; end", "case vα; in δ => Xα; end"),
    (b"case v\xffa; in \xffd => @x\xffa; end", "case vα; in δ => @xα; end"),
    (b"case v\xffa; in @x\xffa; end", "case vα; in @xα; end"),
    (b"case v\xffa; in $x\xffa; end", "case vα; in $xα; end"),
    (b"case v\xffa; in x\xffa.y\xffa; end", "case vα; in xα.yα; end"),
    (b"case v\xffa; in x\xffa(); end", "case vα; in xα(); end"),
    (b"case v\xffa; in x\xffa[\xffd]; end", "case vα; in xα[δ]; end"),
    (b"case v\xffa; in ^; end", "case vα; in ^; end"),
    (b"case v\xffa; in ^\xffd; end", "case vα; in ^δ; end"),
    (b"case v\xffa; in ^X\xffa; end", "case vα; in ^Xα; end"),
    (b"case v\xffa; in ^x\xffa.y\xffa; end", "case vα; in ^xα.yα; end"),
    (b"case v\xffa; in X\xffa(; end", "case vα; in Xα(; end"),
    (b"case v\xffa; in X\xffa(\xffd; end", "case vα; in Xα(δ; end"),
    (b"case v\xffa; in X\xffa[\xffd); end", "case vα; in Xα[δ); end"),
    (b"case v\xffa; in X\xffa(\xffd]; end", "case vα; in Xα(δ]; end"),
    (b"case v\xffa; in X\xffa::; end", "case vα; in Xα::; end"),
    (b"case v\xffa; in ::; end", "case vα; in ::; end"),
    (b"case v\xffa; in ::x\xffa; end", "case vα; in ::xα; end"),
    (b"case v\xffa; in X\xffa{}; end", "case vα; in Xα{}; end"),
    (b"case v\xffa; in -x\xffa; end", "case vα; in -xα; end"),
    (b"case v\xffa; in -X\xffa; end", "case vα; in -Xα; end"),
    (b"case v\xffa; in !x\xffa; end", "case vα; in !xα; end"),
    (b"case v\xffa; in \xffd + \xffd; end", "case vα; in δ + δ; end"),
    (b"case v\xffa; in (x\xffa; end", "case vα; in (xα; end"),
    (b"case v\xffa; in (); end", "case vα; in (); end"),
    (b"case v\xffa; in (x\xffa, y\xffa); end", "case vα; in (xα, yα); end"),
    (b"case v\xffa; in x\xffa if; end", "case vα; in xα if; end"),
    (b"case v\xffa; in x\xffa unless; end", "case vα; in xα unless; end"),
    (b"case v\xffa; in if x\xffa; end", "case vα; in if xα; end"),
    (b"case v\xffa; in \xffd..\xffd..\xffd; end", "case vα; in δ..δ..δ; end"),
    (b"case v\xffa; in \x22x\xffa; end", "case vα; in \"xα; end"),
    (b"case v\xffa; in ..; end", "case vα; in ..; end"),
    (b"case v\xffa; in x\xffa..y\xffa; end", "case vα; in xα..yα; end"),
    (b"v\xffa in", "vα in"),
    (b"v\xffa =>", "vα =>"),
    (b"v\xffa => => x\xffa", "vα => => xα"),
    (b"v\xffa in in x\xffa", "vα in in xα"),
    (b"v\xffa in x\xffa in y\xffa", "vα in xα in yα"),
    (b"v\xffa => x\xffa in y\xffa", "vα => xα in yα"),
    (b"v\xffa in {x\xffa: ", "vα in {xα: "),
    (b"v\xffa in [x\xffa", "vα in [xα"),
    (b"v\xffa => x\xffa,,", "vα => xα,,"),
    (b"v\xffa => @x\xffa", "vα => @xα"),
    (b"class", "class"),
    (b"class V\xffa", "class Vα"),
    (b"class V\xffa; x\xffa", "class Vα; xα"),
    (b"class v\xffa; end", "class vα; end"),
    (b"class \xffd; end", "class δ; end"),
    (b"class @v\xffa; end", "class @vα; end"),
    (b"class V\xffa <; end", "class Vα <; end"),
    (b"class V\xffa < X\xffa", "class Vα < Xα"),
    (b"class V\xffa::; end", "class Vα::; end"),
    (b"class v\xffa::x\xffa; end", "class vα::xα; end"),
    (b"class ::; end", "class ::; end"),
    (b"class ::v\xffa; end", "class ::vα; end"),
    (b"class V\xffa(); end", "class Vα(); end"),
    (b"class V\xffa; rescue; ensure", "class Vα; rescue; ensure"),
    (b"class <<; end", "class <<; end"),
    (b"class << self", "class << self"),
    (b"class V\xffa << v\xffa; end", "class Vα << vα; end"),
    (b"class V\xffa; else; end", "class Vα; else; end"),
    (b"class; end", "class; end"),
    (b"module", "module"),
    (b"module V\xffa", "module Vα"),
    (b"module v\xffa; end", "module vα; end"),
    (b"module \xffd; end", "module δ; end"),
    (b"module V\xffa < X\xffa; end", "module Vα < Xα; end"),
    (b"module << self; end", "module << self; end"),
    (b"module V\xffa::; end", "module Vα::; end"),
    (b"module ::v\xffa; end", "module ::vα; end"),
    (b"module; end", "module; end"),
    (b"BEGIN", "BEGIN"),
    (b"BEGIN {", "BEGIN {"),
    (b"BEGIN { v\xffa", "BEGIN { vα"),
    (b"BEGIN v\xffa", "BEGIN vα"),
    (b"BEGIN do v\xffa end", "BEGIN do vα end"),
    (b"BEGIN { v\xffa end", "BEGIN { vα end"),
    (b"END", "END"),
    (b"END {", "END {"),
    (b"END { v\xffa", "END { vα"),
    (b"END v\xffa", "END vα"),
    (b"END do v\xffa end", "END do vα end"),
    (b"alias", "alias"),
    (b"alias v\xffa", "alias vα"),
    (b"alias v\xffa, x\xffa", "alias vα, xα"),
    (b"alias v\xffa x\xffa y\xffa", "alias vα xα yα"),
    (b"alias \xffd v\xffa", "alias δ vα"),
    (b"alias v\xffa \xffd", "alias vα δ"),
    (b"alias @v\xffa x\xffa", "alias @vα xα"),
    (b"alias $v\xffa x\xffa", "alias $vα xα"),
    (b"alias v\xffa $x\xffa", "alias vα $xα"),
    (b"alias $v\xffa $1", "alias $vα $1"),
    (b"alias \x22v\xffa\x22 x\xffa", "alias \"vα\" xα"),
    (b"alias v\xffa \x22x\xffa\x22", "alias vα \"xα\""),
    (b"alias (v\xffa) x\xffa", "alias (vα) xα"),
    (b"alias :v\xffa.x\xffa y\xffa", "alias :vα.xα yα"),
    (b"alias v\xffa.x\xffa y\xffa", "alias vα.xα yα"),
    (b"undef", "undef"),
    (b"undef v\xffa,", "undef vα,"),
    (b"undef ,v\xffa", "undef ,vα"),
    (b"undef v\xffa x\xffa", "undef vα xα"),
    (b"undef v\xffa,,x\xffa", "undef vα,,xα"),
    (b"undef \xffd", "undef δ"),
    (b"undef @v\xffa", "undef @vα"),
    (b"undef $v\xffa", "undef $vα"),
    (b"undef \x22v\xffa\x22", "undef \"vα\""),
    (b"undef (v\xffa)", "undef (vα)"),
    (b"undef v\xffa.x\xffa", "undef vα.xα"),
    (b"v\xffa =", "vα ="),
    (b"v\xffa = ;", "vα = ;"),
    (b"v\xffa = x\xffa =", "vα = xα ="),
    (b"v\xffa == ", "vα == "),
    (b"v\xffa = = x\xffa", "vα = = xα"),
    (b"v\xffa == == x\xffa", "vα == == xα"),
    (b"v\xffa = , x\xffa", "vα = , xα"),
    (b"v\xffa = x\xffa,", "vα = xα,"),
    (b"v\xffa = *", "vα = *"),
    (b"v\xffa = *x\xffa,", "vα = *xα,"),
    (b"v\xffa, = ", "vα, = "),
    (b"v\xffa, x\xffa =", "vα, xα ="),
    (b"v\xffa, x\xffa", "vα, xα"),
    (b"v\xffa,", "vα,"),
    (b", v\xffa = \xffd", ", vα = δ"),
    (b"v\xffa,, x\xffa = \xffd", "vα,, xα = δ"),
    (b"v\xffa, *x\xffa, *y\xffa = \xffd", "vα, *xα, *yα = δ"),
    (b"*v\xffa, *x\xffa = \xffd", "*vα, *xα = δ"),
    (b"*v\xffa", "*vα"),
    (b"*", "*"),
    (b"* = ", "* = "),
    (b"**v\xffa = \xffd", "**vα = δ"),
    (b"&v\xffa = \xffd", "&vα = δ"),
    (b"(v\xffa, x\xffa = \xffd", "(vα, xα = δ"),
    (b"(v\xffa, x\xffa)", "(vα, xα)"),
    (b"(v\xffa,) ", "(vα,) "),
    (b"v\xffa, (x\xffa, y\xffa = \xffd", "vα, (xα, yα = δ"),
    (b"v\xffa, (x\xffa, y\xffa)) = \xffd", "vα, (xα, yα)) = δ"),
    (b"v\xffa, () = \xffd", "vα, () = δ"),
    (b"() = \xffd", "() = δ"),
    (b"(,) = \xffd", "(,) = δ"),
    (b"(*v\xffa, *x\xffa) = \xffd", "(*vα, *xα) = δ"),
    (b"v\xffa, \xffd = x\xffa", "vα, δ = xα"),
    (b"\xffd = v\xffa", "δ = vα"),
    (b"\xffd, v\xffa = x\xffa", "δ, vα = xα"),
    (b"\x22v\xffa\x22 = \xffd", "\"vα\" = δ"),
    (b"\x22v\xffa\x22, x\xffa = \xffd", "\"vα\", xα = δ"),
    (b":v\xffa = \xffd", ":vα = δ"),
    (b"v\xffa() = \xffd", "vα() = δ"),
    (b"v\xffa() += \xffd", "vα() += δ"),
    (b"v\xffa(), x\xffa = \xffd", "vα(), xα = δ"),
    (b"v\xffa? = \xffd", "vα? = δ"),
    (b"v\xffa! = \xffd", "vα! = δ"),
    (b"v\xffa + x\xffa, y\xffa = \xffd", "vα + xα, yα = δ"),
    (b"!v\xffa, x\xffa = \xffd", "!vα, xα = δ"),
    (b"[v\xffa] = \xffd", "[vα] = δ"),
    (b"[v\xffa], x\xffa = \xffd", "[vα], xα = δ"),
    (b"{} = \xffd", "{} = δ"),
    (b"->{} = \xffd", "->{} = δ"),
    (b"v\xffa {} = \xffd", "vα {} = δ"),
    (b"v\xffa.x\xffa() = \xffd", "vα.xα() = δ"),
    (b"v\xffa.x\xffa? = \xffd", "vα.xα? = δ"),
    (b"v\xffa.x\xffa! = \xffd", "vα.xα! = δ"),
    (b"v\xffa.x\xffa {} = \xffd", "vα.xα {} = δ"),
    (b"v\xffa ? x\xffa : y\xffa = ", "vα ? xα : yα = "),
    (b"nil = \xffd", "nil = δ"),
    (b"self = \xffd", "self = δ"),
    (b"true = \xffd", "true = δ"),
    (b"false = \xffd", "false = δ"),
    (b"__FILE__ = \xffd", "__FILE__ = δ"),
    (b"__LINE__ = \xffd", "__LINE__ = δ"),
    (b"__ENCODING__ = \xffd", "__ENCODING__ = δ"),
    (b"nil, v\xffa = \xffd", "nil, vα = δ"),
    (b"self, v\xffa = \xffd", "self, vα = δ"),
    (b"nil += \xffd", "nil += δ"),
    (b"self ||= \xffd", "self ||= δ"),
    (b"$1 = \xffd", "$1 = δ"),
    (b"$& = \xffd", "$& = δ"),
    (b"$1 += \xffd", "$1 += δ"),
    (b"$1, v\xffa = \xffd", "$1, vα = δ"),
    (b"$& ||= \xffd", "$& ||= δ"),
    (b"v\xffa +=", "vα +="),
    (b"v\xffa += ;", "vα += ;"),
    (b"v\xffa ||=", "vα ||="),
    (b"v\xffa &&=", "vα &&="),
    (b"v\xffa += x\xffa,", "vα += xα,"),
    (b"v\xffa, x\xffa += \xffd", "vα, xα += δ"),
    (b"v\xffa += *", "vα += *"),
    (b"+= v\xffa", "+= vα"),
    (b"||= v\xffa", "||= vα"),
    (b"v\xffa ++", "vα ++"),
    (b"v\xffa--", "vα--"),
    (b"\xffd += v\xffa", "δ += vα"),
    (b"v\xffa += x\xffa += ", "vα += xα += "),
    (b"*v\xffa += \xffd", "*vα += δ"),
    (b"v\xffa.x\xffa +=", "vα.xα +="),
    (b"v\xffa[\xffd] +=", "vα[δ] +="),
    (b"v\xffa[\xffd] =", "vα[δ] ="),
    (b"v\xffa.x\xffa =", "vα.xα ="),
    (b"v\xffa::X\xffa =", "vα::Xα ="),
    (b"@v\xffa =", "@vα ="),
    (b"@@v\xffa =", "@@vα ="),
    (b"$v\xffa =", "$vα ="),
    (b"V\xffa =", "Vα ="),
    (b"V\xffa ||=", "Vα ||="),
    (b"v\xffa.", "vα."),
    (b"v\xffa&.", "vα&."),
    (b"v\xffa::", "vα::"),
    (b"v\xffa.\xffd", "vα.δ"),
    (b"v\xffa.@x\xffa", "vα.@xα"),
    (b"v\xffa.$x\xffa", "vα.$xα"),
    (b"v\xffa.\x22x\xffa\x22", "vα.\"xα\""),
    (b"v\xffa.:x\xffa", "vα.:xα"),
    (b"v\xffa.[\xffd]", "vα.[δ]"),
    (b"v\xffa&.[\xffd]", "vα&.[δ]"),
    (b"v\xffa..x\xffa..y\xffa", "vα..xα..yα"),
    (b"v\xffa.x\xffa.", "vα.xα."),
    (b"v\xffa&.x\xffa&.", "vα&.xα&."),
    (b".v\xffa", ".vα"),
    (b"&.v\xffa", "&.vα"),
    (b"v\xffa . . x\xffa", "vα . . xα"),
    (b"v\xffa.&.x\xffa", "vα.&.xα"),
    (b"v\xffa&&.x\xffa", "vα&&.xα"),
    (b"v\xffa:::x\xffa", "vα:::xα"),
    (b"v\xffa::\xffd", "vα::δ"),
    (b"v\xffa::@x\xffa", "vα::@xα"),
    (b"::", "::"),
    (b"::v\xffa", "::vα"),
    (b"::\xffd", "::δ"),
    (b"::V\xffa::", "::Vα::"),
    (b"v\xffa(,)", "vα(,)"),
    (b"v\xffa(,x\xffa)", "vα(,xα)"),
    (b"v\xffa(x\xffa,,y\xffa)", "vα(xα,,yα)"),
    (b"v\xffa(x\xffa y\xffa,)", "vα(xα yα,)"),
    (b"v\xffa(x\xffa, y\xffa z\xffa", "vα(xα, yα zα"),
    (b"v\xffa(*)", "vα(*)"),
    (b"v\xffa(**)", "vα(**)"),
    (b"v\xffa(&)", "vα(&)"),
    (b"v\xffa(*,)", "vα(*,)"),
    (b"v\xffa(x\xffa, *)", "vα(xα, *)"),
    (b"v\xffa(x\xffa, &)", "vα(xα, &)"),
    (b"v\xffa(x\xffa, **)", "vα(xα, **)"),
    (b"v\xffa(&x\xffa, y\xffa)", "vα(&xα, yα)"),
    (b"v\xffa(&x\xffa,)", "vα(&xα,)"),
    (b"v\xffa(&x\xffa, &y\xffa)", "vα(&xα, &yα)"),
    (b"v\xffa(&x\xffa, *y\xffa)", "vα(&xα, *yα)"),
    (b"v\xffa(x\xffa: )v\xfe\x00", "vα(xα: )vα"),
    (b"v\xffa(x\xffa => )", "vα(xα => )"),
    (b"v\xffa(x\xffa =>)", "vα(xα =>)"),
    (b"v\xffa(=> x\xffa)", "vα(=> xα)"),
    (b"v\xffa(x\xffa => y\xffa => z\xffa)", "vα(xα => yα => zα)"),
    (b"v\xffa(x\xffa: y\xffa: \xffd)", "vα(xα: yα: δ)"),
    (b"v\xffa(...)", "vα(...)"),
    (b"v\xffa(x\xffa, ...)", "vα(xα, ...)"),
    (b"v\xffa x\xffa, ...", "vα xα, ..."),
    (b"v\xffa x\xffa,", "vα xα,"),
    (b"v\xffa x\xffa,, y\xffa", "vα xα,, yα"),
    (b"v\xffa , x\xffa", "vα , xα"),
    (b"v\xffa *", "vα *"),
    (b"v\xffa **", "vα **"),
    (b"v\xffa &", "vα &"),
    (b"v\xffa x\xffa, *", "vα xα, *"),
    (b"v\xffa x\xffa, &", "vα xα, &"),
    (b"v\xffa &x\xffa, y\xffa", "vα &xα, yα"),
    (b"v\xffa x\xffa =>", "vα xα =>"),
    (b"v\xffa(x\xffa; y\xffa)", "vα(xα; yα)"),
    (b"v\xffa (x\xffa, y\xffa", "vα (xα, yα"),
    (b"v\xffa (x\xffa,y\xffa) z\xffa", "vα (xα,yα) zα"),
    (b"v\xffa (x\xffa; y\xffa), ", "vα (xα; yα), "),
    (b"v\xffa x\xffa y\xffa: ,", "vα xα yα: ,"),
    (b"v\xffa x\xffa y\xffa z\xffa,", "vα xα yα zα,"),
    (b"v\xffa(x\xffa) y\xffa", "vα(xα) yα"),
    (b"v\xffa(x\xffa) \xffd", "vα(xα) δ"),
    (b"v\xffa() x\xffa", "vα() xα"),
    (b"v\xffa[x\xffa] y\xffa = ", "vα[xα] yα = "),
    (b"v\xffa[,]", "vα[,]"),
    (b"v\xffa[,x\xffa]", "vα[,xα]"),
    (b"v\xffa[x\xffa,,y\xffa]", "vα[xα,,yα]"),
    (b"v\xffa[x\xffa; y\xffa]", "vα[xα; yα]"),
    (b"v\xffa[x\xffa, &y\xffa] = ", "vα[xα, &yα] = "),
    (b"v\xffa[*]", "vα[*]"),
    (b"v\xffa[x\xffa =>]", "vα[xα =>]"),
    (b"v\xffa {} {}", "vα {} {}"),
    (b"v\xffa {} do end do", "vα {} do end do"),
    (b"v\xffa do end {}", "vα do end {}"),
    (b"v\xffa() {} {}", "vα() {} {}"),
    (b"v\xffa.x\xffa {} {}", "vα.xα {} {}"),
    (b"super(", "super("),
    (b"super(x\xffa", "super(xα"),
    (b"super(,)", "super(,)"),
    (b"super x\xffa,", "super xα,"),
    (b"super(x\xffa,,y\xffa)", "super(xα,,yα)"),
    (b"super.", "super."),
    (b"super {} {}", "super {} {}"),
    (b"yield(", "yield("),
    (b"yield(x\xffa", "yield(xα"),
    (b"yield(,)", "yield(,)"),
    (b"yield x\xffa,", "yield xα,"),
    (b"yield {}", "yield {}"),
    (b"yield(&x\xffa)", "yield(&xα)"),
    (b"yield &x\xffa", "yield &xα"),
    (b"return,", "return,"),
    (b"return x\xffa,", "return xα,"),
    (b"return(x\xffa,y\xffa)", "return(xα,yα)"),
    (b"break,", "break,"),
    (b"break x\xffa,", "break xα,"),
    (b"next,", "next,"),
    (b"next x\xffa,", "next xα,"),
    (b"redo v\xffa", "redo vα"),
    (b"retry v\xffa", "retry vα"),
    (b"redo(v\xffa)", "redo(vα)"),
    (b"retry(v\xffa)", "retry(vα)"),
    (b"redo,", "redo,"),
    (b"nil v\xffa", "nil vα"),
    (b"true v\xffa", "true vα"),
    (b"false v\xffa", "false vα"),
    (b"self v\xffa", "self vα"),
    (b"nil()", "nil()"),
    (b"true()", "true()"),
    (b"self()", "self()"),
    (b"nil {}", "nil {}"),
    (b"true do end", "true do end"),
    (b"__FILE__ v\xffa", "__FILE__ vα"),
    (b"__LINE__()", "__LINE__()"),
    (b"not", "not"),
    (b"not;", "not;"),
    (b"not()v\xffa", "not()vα"),
    (b"!", "!"),
    (b"!;", "!;"),
    (b"~", "~"),
    (b"-", "-"),
    (b"+", "+"),
    (b"v\xffa -", "vα -"),
    (b"v\xffa +", "vα +"),
    (b"v\xffa *  ", "vα *  "),
    (b"v\xffa /", "vα /"),
    (b"v\xffa %", "vα %"),
    (b"v\xffa |", "vα |"),
    (b"v\xffa ^", "vα ^"),
    (b"v\xffa <<", "vα <<"),
    (b"v\xffa >>", "vα >>"),
    (b"v\xffa <", "vα <"),
    (b"v\xffa >", "vα >"),
    (b"v\xffa <=", "vα <="),
    (b"v\xffa >=", "vα >="),
    (b"v\xffa <=>", "vα <=>"),
    (b"v\xffa ==", "vα =="),
    (b"v\xffa ===", "vα ==="),
    (b"v\xffa !=", "vα !="),
    (b"v\xffa =~", "vα =~"),
    (b"v\xffa !~", "vα !~"),
    (b"v\xffa &&", "vα &&"),
    (b"v\xffa ||", "vα ||"),
    (b"v\xffa and", "vα and"),
    (b"v\xffa or", "vα or"),
    (b"v\xffa if", "vα if"),
    (b"v\xffa unless", "vα unless"),
    (b"v\xffa while", "vα while"),
    (b"v\xffa until", "vα until"),
    (b"v\xffa rescue", "vα rescue"),
    (b"v\xffa ?", "vα ?"),
    (b"v\xffa ? x\xffa", "vα ? xα"),
    (b"v\xffa ? x\xffa :", "vα ? xα :"),
    (b"v\xffa ? : x\xffa", "vα ? : xα"),
    (b"v\xffa ? x\xffa : y\xffa : z\xffa", "vα ? xα : yα : zα"),
    (b"v\xffa ? x\xffa y\xffa : z\xffa", "vα ? xα yα : zα"),
    (b"? x\xffa : y\xffa", "? xα : yα"),
    (b": v\xffa", ": vα"),
    (b"v\xffa : x\xffa", "vα : xα"),
    (b"% v\xffa % ", "% vα % "),
    (b"* v\xffa", "* vα"),
    (b"/ v\xffa", "/ vα"),
    (b"** v\xffa", "** vα"),
    (b"& v\xffa", "& vα"),
    (b"| v\xffa", "| vα"),
    (b"^ v\xffa", "^ vα"),
    (b"< v\xffa", "< vα"),
    (b"> v\xffa", "> vα"),
    (b"<= v\xffa", "<= vα"),
    (b">= v\xffa", ">= vα"),
    (b"== v\xffa", "== vα"),
    (b"=== v\xffa", "=== vα"),
    (b"=> v\xffa", "=> vα"),
    (b"!= v\xffa", "!= vα"),
    (b"=~ v\xffa", "=~ vα"),
    (b"!~ v\xffa", "!~ vα"),
    (b"<=> v\xffa", "<=> vα"),
    (b"&& v\xffa", "&& vα"),
    (b"|| v\xffa", "|| vα"),
    (b"and v\xffa", "and vα"),
    (b"or v\xffa", "or vα"),
    (b"v\xffa * * x\xffa", "vα * * xα"),
    (b"v\xffa / / x\xffa", "vα / / xα"),
    (b"v\xffa & & x\xffa", "vα & & xα"),
    (b"v\xffa | x\xffa |", "vα | xα |"),
    (b"v\xffa | | x\xffa", "vα | | xα"),
    (b"v\xffa ^ ^ x\xffa", "vα ^ ^ xα"),
    (b"v\xffa < < x\xffa", "vα < < xα"),
    (b"v\xffa && && x\xffa", "vα && && xα"),
    (b"v\xffa || && x\xffa", "vα || && xα"),
    (b"v\xffa and and x\xffa", "vα and and xα"),
    (b"v\xffa or and x\xffa", "vα or and xα"),
    (b"v\xffa and or x\xffa", "vα and or xα"),
    (b"v\xffa not x\xffa", "vα not xα"),
    (b"v\xffa = not", "vα = not"),
    (b"v\xffa == x\xffa == y\xffa", "vα == xα == yα"),
    (b"v\xffa != x\xffa == y\xffa", "vα != xα == yα"),
    (b"v\xffa <=> x\xffa <=> y\xffa", "vα <=> xα <=> yα"),
    (b"v\xffa === x\xffa === y\xffa", "vα === xα === yα"),
    (b"v\xffa =~ x\xffa =~ y\xffa", "vα =~ xα =~ yα"),
    (b"v\xffa !~ x\xffa =~ y\xffa", "vα !~ xα =~ yα"),
    (b"v\xffa == x\xffa <=> y\xffa", "vα == xα <=> yα"),
    (b"v\xffa...x\xffa...y\xffa", "vα...xα...yα"),
    (b"v\xffa..x\xffa...y\xffa", "vα..xα...yα"),
    (b"defined?", "defined?"),
    (b"defined?()", "defined?()"),
    (b"defined?(v\xffa", "defined?(vα"),
    (b"defined? v\xffa x\xffa y\xffa", "defined? vα xα yα"),
    (b"[,]", "[,]"),
    (b"[,v\xffa]", "[,vα]"),
    (b"[v\xffa,,x\xffa]", "[vα,,xα]"),
    (b"[v\xffa x\xffa]", "[vα xα]"),
    (b"[v\xffa; x\xffa]", "[vα; xα]"),
    (b"[*]", "[*]"),
    (b"[**]", "[**]"),
    (b"[&v\xffa]", "[&vα]"),
    (b"[v\xffa =>]", "[vα =>]"),
    (b"[v\xffa => x\xffa, y\xffa]", "[vα => xα, yα]"),
    (b"[v\xffa: \xffd, x\xffa]", "[vα: δ, xα]"),
    (b"[=> v\xffa]", "[=> vα]"),
    (b"[v\xffa:x\xffa:\xffd]", "[vα:xα:δ]"),
    (b"[*v\xffa *x\xffa]", "[*vα *xα]"),
    (b"[v\xffa if x\xffa]", "[vα if xα]"),
    (b"[v\xffa and x\xffa]", "[vα and xα]"),
    (b"[not v\xffa]", "[not vα]"),
    (b"[v\xffa = x\xffa, ]]", "[vα = xα, ]]"),
    (b"{,}", "{,}"),
    (b"{,v\xffa: \xffd}", "{,vα: δ}"),
    (b"{v\xffa: \xffd,,x\xffa: \xffd}", "{vα: δ,,xα: δ}"),
    (b"{v\xffa: \xffd x\xffa: \xffd}", "{vα: δ xα: δ}"),
    (b"{v\xffa: \xffd; x\xffa: \xffd}", "{vα: δ; xα: δ}"),
    (b"{v\xffa}", "{vα}"),
    (b"{v\xffa,}", "{vα,}"),
    (b"{v\xffa =>}", "{vα =>}"),
    (b"{v\xffa => x\xffa => y\xffa}", "{vα => xα => yα}"),
    (b"{=> v\xffa}", "{=> vα}"),
    (b"{v\xffa, x\xffa}", "{vα, xα}"),
    (b"{*v\xffa}", "{*vα}"),
    (b"{&v\xffa}", "{&vα}"),
    (b"{**}", "{**}"),
    (b"{v\xffa: x\xffa: \xffd}", "{vα: xα: δ}"),
    (b"{\xffd}", "{δ}"),
    (b"{\xffd,\xffd}", "{δ,δ}"),
    (b"{\xffd: v\xffa}", "{δ: vα}"),
    (b"{\x22v\xffa\x22}", "{\"vα\"}"),
    (b"{\x22v\xffa\x22 x\xffa}", "{\"vα\" xα}"),
    (b"{:v\xffa x\xffa}", "{:vα xα}"),
    (b"{:v\xffa: \xffd}", "{:vα: δ}"),
    (b"{@v\xffa: \xffd}", "{@vα: δ}"),
    (b"{v\xffa: \xffd => x\xffa}", "{vα: δ => xα}"),
    (b"{v\xffa: not x\xffa}", "{vα: not xα}"),
    (b"{v\xffa: x\xffa and y\xffa}", "{vα: xα and yα}"),
    (b"(v\xffa,x\xffa)", "(vα,xα)"),
    (b"(v\xffa x\xffa y\xffa,)", "(vα xα yα,)"),
    (b"(,)", "(,)"),
    (b"(v\xffa,)", "(vα,)"),
    (b"(*v\xffa)", "(*vα)"),
    (b"(&v\xffa)", "(&vα)"),
    (b"(v\xffa: \xffd)", "(vα: δ)"),
    (b"(v\xffa => )", "(vα => )"),
    (b"(v\xffa; )x\xffa", "(vα; )xα"),
    (b"(v\xffa)x\xffa", "(vα)xα"),
    (b"(v\xffa)\xffd", "(vα)δ"),
    (b"\x22v\xffa", "\"vα"),
    (b"'v\xffa", "'vα"),
    (b"`v\xffa", "`vα"),
    (b"/v\xffa", "/vα"),
    (b"%(v\xffa", "%(vα"),
    (b"%w[v\xffa", "%w[vα"),
    (b"%W[v\xffa", "%W[vα"),
    (b"%i[v\xffa", "%i[vα"),
    (b"%I[v\xffa", "%I[vα"),
    (b"%q(v\xffa", "%q(vα"),
    (b"%Q{v\xffa", "%Q{vα"),
    (b"%r{v\xffa", "%r{vα"),
    (b"%s(v\xffa", "%s(vα"),
    (b"%x(v\xffa", "%x(vα"),
    (b":\x22v\xffa", ":\"vα"),
    (b":'v\xffa", ":'vα"),
    (b"%z(v\xffa)", "%z(vα)"),
    (b"%\xc3\xa9a\xc3\xa9", "%éaé"),
    (b"\x22#{v\xffa\x22", "\"#{vα\""),
    (b"\x22#{\x22", "\"#{\""),
    (b"\x22#{v\xffa}", "\"#{vα}"),
    (b"\x22v\xffa#{x\xffa", "\"vα#{xα"),
    (b"\x22#{)}\x22", "\"#{)}\""),
    (b"\x22#{v\xffa;)}\x22", "\"#{vα;)}\""),
    (b"\x22#{v\xffa x\xffa y\xffa,}\x22", "\"#{vα xα yα,}\""),
    (b"`#{", "`#{"),
    (b"/#{v\xffa/", "/#{vα/"),
    (b"%w[v\xffa x\xffa)", "%w[vα xα)"),
    (b"%(v\xffa))", "%(vα))"),
    (b"\x22v\xffa\x22 x\xffa", "\"vα\" xα"),
    (b"\x22v\xffa\x22 \xffd", "\"vα\" δ"),
    (b"\x22v\xffa\x22 :x\xffa", "\"vα\" :xα"),
    (b"'v\xffa' x\xffa", "'vα' xα"),
    (b"\xffd v\xffa", "δ vα"),
    (b"\xffd \xffd", "δ δ"),
    (b"\xffd \x22v\xffa\x22", "δ \"vα\""),
    (b"\xffd :v\xffa", "δ :vα"),
    (b":v\xffa x\xffa", ":vα xα"),
    (b":v\xffa :x\xffa", ":vα :xα"),
    (b":v\xffa \x22x\xffa\x22", ":vα \"xα\""),
    (b"@v\xffa x\xffa", "@vα xα"),
    (b"@v\xffa \xffd", "@vα δ"),
    (b"@v\xffa @x\xffa", "@vα @xα"),
    (b"$v\xffa x\xffa", "$vα xα"),
    (b"@@v\xffa x\xffa", "@@vα xα"),
    (b"?a ?b", "?a ?b"),
    (b"?", "?"),
    (b"/v\xffa/ x\xffa", "/vα/ xα"),
    (b"/v\xffa/z", "/vα/z"),
    (b"/v\xffa/ii-", "/vα/ii-"),
    (b"[\xffd] x\xffa", "[δ] xα"),
    (b"[\xffd] \xffd", "[δ] δ"),
    (b"{} v\xffa", "{} vα"),
    (b"<<A", "<<A"),
    (b"<<A\x0av\xffa", "<<A⏎vα"),
    (b"<<-A\x0av\xffa", "<<-A⏎vα"),
    (b"<<~A\x0av\xffa\x0a", "<<~A⏎vα⏎"),
    (b"<<'A'\x0av\xffa", "<<'A'⏎vα"),
    (b"<<\x22A\x0av\xffa\x0aA", "<<\"A⏎vα⏎A"),
    (b"<<'A\x0av\xffa\x0aA", "<<'A⏎vα⏎A"),
    (b"<<`A\x0av\xffa\x0aA", "<<`A⏎vα⏎A"),
    (b"<<A\x0aA A", "<<A⏎A A"),
    (b"<<A\x0a A", "<<A⏎ A"),
    (b"<<A + \x0av\xffa\x0aA", "<<A + ⏎vα⏎A"),
    (b"v\xffa(<<A\x0ax\xffa\x0aA", "vα(<<A⏎xα⏎A"),
    (b"<<A.\x0av\xffa\x0aA", "<<A.⏎vα⏎A"),
    (b"<<A x\xffa\x0av\xffa\x0aA", "<<A xα⏎vα⏎A"),
    (b"@", "@"),
    (b"@@", "@@"),
    (b"$", "$"),
    (b"@\xffd", "@δ"),
    (b"@@\xffd", "@@δ"),
    (b"$ ", "$ "),
    (b"@ v\xffa", "@ vα"),
    (b"$\xffDv\xffa", "$Δvα"),
    (b"$-", "$-"),
    (b":", ":"),
    (b":\xffd", ":δ"),
    (b":@", ":@"),
    (b":@@", ":@@"),
    (b":$", ":$"),
    (b":@\xffd", ":@δ"),
    (b":;", ":;"),
    (b":=", ":="),
    (b"0x", "0x"),
    (b"0b", "0b"),
    (b"0o", "0o"),
    (b"0d", "0d"),
    (b"0b2", "0b2"),
    (b"0o8", "0o8"),
    (b"08", "08"),
    (b"09", "09"),
    (b"0xg", "0xg"),
    (b"0b12", "0b12"),
    (b"1_", "1_"),
    (b"1__0", "1__0"),
    (b"0_", "0_"),
    (b"0x_1", "0x_1"),
    (b"0b_1", "0b_1"),
    (b"1.0_", "1.0_"),
    (b"1e", "1e"),
    (b"1e+", "1e+"),
    (b"1e-", "1e-"),
    (b"1.0e", "1.0e"),
    (b"1_.0", "1_.0"),
    (b"1r2", "1r2"),
    (b"1ir", "1ir"),
    (b"1e5r", "1e5r"),
    (b"0xfv\xffa", "0xfvα"),
    (b"1v\xffa", "1vα"),
    (b"1.0v\xffa", "1.0vα"),
    (b"1.0.0", "1.0.0"),
    (b"1..2..3", "1..2..3"),
    (b"\x5c", "\\"),
    (b"\x5c v\xffa", "\\ vα"),
    (b"v\xffa \x5c x\xffa", "vα \\ xα"),
    (b"v\xffa \x5cx\xffa", "vα \\xα"),
    (b"=begin", "=begin"),
    (b"=begin\x0av\xffa", "=begin⏎vα"),
    (b"=begin\x0a=en", "=begin⏎=en"),
    (b"v\xffa\x0a=begin", "vα⏎=begin"),
    (b";v\xffa)", ";vα)"),
    (b"v\xffa;;)", "vα;;)"),
    (b"`", "`"),
    (b"v\xffa`", "vα`"),
    (b"'", "'"),
    (b"\x22", "\""),
    (b"v\xffa\x22", "vα\""),
    (b";end", ";end"),
    (b"(;", "(;"),
    (b"[;]", "[;]"),
    (b"{;}", "{;}"),
    (b"((v\xffa)", "((vα)"),
    (b"(v\xffa))", "(vα))"),
    (b"[[v\xffa]", "[[vα]"),
    (b"[v\xffa]]", "[vα]]"),
    (b"v\xffa({)}", "vα({)}"),
    (b"v\xffa[(])", "vα[(])"),
    (b"{(})", "{(})"),
    (b"\x22#{[}]\x22", "\"#{[}]\""),
    (b"->{(}) ", "->{(}) "),
    (b"if (v\xffa; end)", "if (vα; end)"),
    (b"begin (v\xffa end)", "begin (vα end)"),
    (b"v\xffa do (x\xffa end)", "vα do (xα end)"),
    (b"v\xffa { [x\xffa } ]", "vα { [xα } ]"),
    (b"def v\xffa(x\xffa = [) ] end", "def vα(xα = [) ] end"),
    (b"case v\xffa; when [x\xffa; end]", "case vα; when [xα; end]"),
    (b"while (v\xffa do end)", "while (vα do end)"),
    (b"class V\xffa < (X\xffa; end)", "class Vα < (Xα; end)"),
    (b"v\xffa.x\xffa = ", "vα.xα = "),
    (b"v\xffa.x\xffa, = ", "vα.xα, = "),
    (b"v\xffa.x\xffa,", "vα.xα,"),
    (b"v\xffa[x\xffa], y\xffa", "vα[xα], yα"),
    (b"v\xffa, x\xffa if y\xffa", "vα, xα if yα"),
    (b"v\xffa if x\xffa if", "vα if xα if"),
    (b"v\xffa rescue x\xffa rescue", "vα rescue xα rescue"),
    (b"v\xffa while x\xffa until", "vα while xα until"),
    (b"v\xffa, = x\xffa,", "vα, = xα,"),
    (b"v\xffa = x\xffa, *", "vα = xα, *"),
    (b"v\xffa = x\xffa, y\xffa,", "vα = xα, yα,"),
    (b"v\xffa = x\xffa, y\xffa:", "vα = xα, yα:"),
    (b"v\xffa = &x\xffa", "vα = &xα"),
    (b"v\xffa = **x\xffa", "vα = **xα"),
    (b"v\xffa = x\xffa: \xffd", "vα = xα: δ"),
    (b"v\xffa = x\xffa => ", "vα = xα => "),
    (b"v\xffa.x\xffa y\xffa,", "vα.xα yα,"),
    (b"v\xffa.x\xffa y\xffa, *", "vα.xα yα, *"),
    (b"v\xffa.x\xffa(y\xffa", "vα.xα(yα"),
    (b"v\xffa.x\xffa(y\xffa,,)", "vα.xα(yα,,)"),
    (b"v\xffa.(x\xffa", "vα.(xα"),
    (b"v\xffa.(", "vα.("),
    (b"v\xffa::(x\xffa", "vα::(xα"),
    (b"v\xffa.()x\xffa", "vα.()xα"),
    (b"v\xffa&.(", "vα&.("),
    (b"v\xffa&.x\xffa, y\xffa = \xffd", "vα&.xα, yα = δ"),
    (b"v\xffa, x\xffa&.y\xffa = \xffd", "vα, xα&.yα = δ"),
    (b"v\xffa&.x\xffa, = \xffd", "vα&.xα, = δ"),
    (b"V\xffa() = \xffd", "Vα() = δ"),
    (b"V\xffa::x\xffa() = \xffd", "Vα::xα() = δ"),
    (b"v\xffa::X\xffa() = \xffd", "vα::Xα() = δ"),
    (b"v\xffa do |x\xffa| end end", "vα do |xα| end end"),
    (b"v\xffa x\xffa do y\xffa end do z\xffa", "vα xα do yα end do zα"),
    (b"v\xffa do end do end", "vα do end do end"),
    (b"v\xffa x\xffa {} y\xffa", "vα xα {} yα"),
    (b"v\xffa x\xffa do end y\xffa", "vα xα do end yα"),
    (b"return do end if", "return do end if"),
    (b"v\xffa ->", "vα ->"),
    (b"v\xffa -> {", "vα -> {"),
    (b"v\xffa -> do", "vα -> do"),
    (b"v\xffa ->(x\xffa) y\xffa", "vα ->(xα) yα"),
    (b"v\xffa ->{} {}", "vα ->{} {}"),
    (b"%w[v\xffa] x\xffa", "%w[vα] xα"),
    (b"%i[v\xffa] \xffd", "%i[vα] δ"),
    (b"p(**v\xffa, *x\xffa)v\xfe\x00", "p(**vα, *xα)vα"),
    (b"private def v\xffa", "private def vα"),
    (b"private def v\xffa; x\xffa", "private def vα; xα"),
    (b"private def v\xffa =", "private def vα ="),
    (b"v\xffa = def", "vα = def"),
    (b"v\xffa = if", "vα = if"),
    (b"v\xffa = if x\xffa", "vα = if xα"),
    (b"v\xffa = if x\xffa then y\xffa", "vα = if xα then yα"),
    (b"v\xffa = case", "vα = case"),
    (b"v\xffa = case x\xffa", "vα = case xα"),
    (b"v\xffa = begin", "vα = begin"),
    (b"v\xffa = begin x\xffa", "vα = begin xα"),
    (b"v\xffa = while x\xffa", "vα = while xα"),
    (b"v\xffa = class X\xffa", "vα = class Xα"),
    (b"v\xffa = ->", "vα = ->"),
    (b"v\xffa = [", "vα = ["),
    (b"v\xffa = {", "vα = {"),
    (b"v\xffa = (", "vα = ("),
    (b"v\xffa = \x22", "vα = \""),
    (b"v\xffa = x\xffa(", "vα = xα("),
    (b"v\xffa = x\xffa[", "vα = xα["),
    (b"v\xffa = !", "vα = !"),
    (b"v\xffa = x\xffa ? ", "vα = xα ? "),
    (b"v\xffa = x\xffa ? y\xffa", "vα = xα ? yα"),
    (b"v\xffa = x\xffa ? y\xffa :", "vα = xα ? yα :"),
    (b"return &x\xffa", "return &xα"),
    (b"break &x\xffa", "break &xα"),
    (b"next &x\xffa", "next &xα"),
    (b"def a\xffa==(v\xffa); end", "def aα==(vα); end"),
    (b"def a\xffa=~(v\xffa); end", "def aα=~(vα); end"),
    (b"def a\xffa=>(v\xffa); end", "def aα=>(vα); end"),
    (b"{a\xffa=: \xffd}", "{aα=: δ}"),
    (b":@a\xffa=", ":@aα="),
    (b":$a\xffa=\xffd", ":$aα=δ"),
    (b"[:a\xffa!~/\xffd/]", "[:aα!~/δ/]"),
    (b"[:a\xffa!==\xffd]", "[:aα!==δ]"),
    (b"v\xffa ? a\xffa?: \xffd : b\xffa", "vα ? aα?: δ : bα"),
];
